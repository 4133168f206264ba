"""The properties, their anchors and the note on how strong each check is."""


def P(id, title, statement, over, text, why, files, mech, note, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
             anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, level_note=note)
    for k in ('state', 'observe_at'):
        if k in kw:
            d['anchors'][k] = kw.pop(k)
    d.update(kw)
    return d


MF = 'beluga/symbolic/data_classes/mapping_functions.py'
TM = 'beluga/numeric/data_classes/trajectory_mappers.py'
VG = ('Value-graph equality for symbolic inputs (any number of components, any expressions); obligations the normal '
      'forms cannot settle are reported undecided in the evidence and never as alarms. ')

PROPS = [
    P('C01', 'Mapping a solution into the transformed problem and back changes nothing',
      'Carrying a trajectory of the user\'s problem into any transformed problem and back returns the same states, '
      'controls, costates, quadratures, parameters, constants and elapsed time. Over a whole chain of transformations '
      'the way back undoes the steps in the reverse order of the way forth.',
      ['inputs', 'configurations'],
      'Every trajectory, every number of states, controls, parameters, quadratures and nodes, every transformation and '
      'every chain of them.',
      'The tests map one trajectory of fixed size through two mappers; index and ordering mistakes only show for other '
      'numbers of controls, parameters or for non-default positions.',
      [TM, MF, 'beluga/numeric/data_classes/NumericProblem.py', 'beluga/symbolic/data_classes/symbolic_problem.py'],
      [('SolMapper.map / inv_map of every mapper', TM), ('mapper registration', MF),
       ('map_sol / inv_map_sol chains', 'beluga/symbolic/data_classes/symbolic_problem.py')],
      VG + 'Elapsed time is compared, not its origin, because a time-normalised trajectory does not store the origin.'),
    P('C03', 'The dual problem states the first-order necessary conditions',
      'Dualizing a problem gives one costate per state and one per parameter, a Hamiltonian equal to the path cost plus '
      'costates times dynamics, costate rates equal to minus the partial derivatives of that Hamiltonian, and boundary '
      'conditions that keep every user constraint, tie each costate to the gradient of the adjoined boundary cost with '
      'the right sign at each end, and fix the terminal Hamiltonian. Every boundary constraint has its own multiplier. '
      'Both formulations (traditional and differential-geometric) give the same conditions.',
      ['inputs', 'programs', 'configurations'],
      'Every problem: any number of states, parameters, controls and boundary constraints, any expressions, both '
      'formulations.',
      'The tests solve fixed example problems, most without parameters, without initial cost and with momentum shift, '
      'where a wrong or missing condition is often not visible.',
      [MF, 'beluga/symbolic/data_classes/components_structures.py'],
      [('Dualize.transformation', MF)],
      VG + 'The symplectic vector field used by the differential-geometric formulation is summarised here.'),
    P('C02', 'Every mapped column holds what the transformed problem has at that position',
      'After a trajectory is carried into a transformed problem, the n-th column of its states, parameters, '
      'multipliers, controls and quadratures holds the quantity that the transformed problem lists as its n-th '
      'state, parameter, multiplier, control or quadrature. Whatever the transformation does not touch is carried '
      'over unchanged, and so are the constants.',
      ['inputs', 'configurations'],
      'Every trajectory and problem size, every transformation, every position at which a variable is moved.',
      'A column in the wrong place still has the right shape; the tests look at single-control, parameter-free cases.',
      [TM, MF],
      [('transformation and mapper of each step', MF), ('SolMapper.map', TM)],
      VG + 'Array shapes are assumed to be those of the problem the trajectory belongs to.'),
    P('C04', 'A bounded constraint is replaced by its own regularised form',
      'Regularising a bounded constraint removes exactly that constraint and no other. A penalty constraint adds to the '
      'cost of its own location (initial, path or terminal) the secant penalty of its own expression, bounds and '
      'activator; a trigonometric one replaces the bounded control by the midpoint plus half the range times the sine '
      'of a new control and subtracts the activator times the cosine of it from the running cost.',
      ['inputs', 'programs', 'configurations'],
      'Every mix and order of equality and bounded constraints at the three locations, any expressions and bounds.',
      'The tests use one path constraint in one position; mixing constraints, locations and methods is where the index '
      'of the constraint and of the cost go wrong.',
      [MF], [('UTM.transformation', MF), ('EpsTrig.transformation', MF), ('constraint dispatch', 'beluga/symbolic/data_classes/symbolic_problem.py')],
      VG),
    P('C05', 'A switched quantity becomes the logistic blend of its alternatives',
      'A switch with several alternatives is replaced everywhere in the problem by the sum of the alternatives, each '
      'multiplied by the logistic weights of its own conditions with the tolerance of that switch. Parsing it again '
      'does not change it, and each switch is replaced by its own blend.',
      ['inputs', 'programs'],
      'Any number of switches and alternatives, any conditions and expressions.',
      'The tests have no problem with several switches or several conditions in one alternative.',
      ['beluga/symbolic/data_classes/components_structures.py', MF],
      [('SwitchStruct.sympify_self', 'beluga/symbolic/data_classes/components_structures.py'), ('RASHS.transformation', MF)],
      VG),
    P('C06', 'Rescaling time multiplies every rate and the running cost by the duration',
      'Normalising time adds the duration as one parameter and multiplies the rate of every state, costate, coparameter '
      'and quadrature, and the running cost, by it exactly once. Boundary costs, constraints and everything else stay '
      'as they were, the new independent variable is dimensionless and its name clashes with no other.',
      ['inputs', 'programs'],
      'Every problem, dualized or not, with any numbers of each kind of variable.',
      'Few test problems have quadratures or parameters together with normalised time.',
      [MF], [('NormalizeTime.transformation', MF)], VG),
    P('C07', 'Automatic scaling divides each value by the magnitude of its own unit',
      'Scaling divides each component of time, states, controls, costates, quadratures, parameters and constants by the '
      'value of its own unit in terms of the reference magnitudes, leaves the given trajectory alone, and unscaling '
      'multiplies by the same factors, so that a scaled and unscaled trajectory is the original.',
      ['inputs', 'programs'],
      'Every trajectory, unit system and number of components.',
      'The tests check one scaling of one problem; a wrong factor only shifts the conditioning of the solver.',
      ['beluga/numeric/data_classes/NumericProblem.py'],
      [('compile_scaling', 'beluga/numeric/data_classes/NumericProblem.py')], VG),
    P('C08', 'Compiled functions evaluate the symbolic expressions with the right bindings',
      'The compiled rates, quadrature rates, boundary conditions, costs, Hamiltonian and Jacobians have, for all '
      'arguments, the values of the symbolic expressions when each symbol takes the argument of its own role and end '
      '(initial or terminal). The control they use is the option of least Hamiltonian at the same arguments.',
      ['inputs', 'programs', 'configurations'],
      'Every problem and argument: any sizes, with and without quadratures, no, one or several control options.',
      'Only values at a few points of small problems are tested; swapped roles of the same size go unnoticed.',
      ['beluga/numeric/data_classes/NumericProblem.py', 'beluga/numeric/compilation/component_compilation.py', MF],
      [('compile_* methods', 'beluga/numeric/data_classes/NumericProblem.py'),
       ('compile_control', 'beluga/numeric/compilation/component_compilation.py'),
       ('ComputeAnalyticalJacobians', MF)],
      VG + 'sympy.lambdify and the JIT are trusted.'),
    P('C10', 'A continuation step moves each named constant to its target on the stated grid',
      'With two or more cases, a continuation step starts from the constants of the solution it is given (which it does '
      'not modify), moves each named constant on the stated linear or logarithmic grid, ends exactly at the target, and '
      'leaves all other constants alone, also when the step is run again. After a failed case the bisection strategy '
      'inserts intermediate points between the last good and the failed one and otherwise keeps the plan; product '
      'strategies visit each combination of their grid once.',
      ['inputs', 'histories', 'configurations'],
      'Any number of cases, constants and values, any pattern of failed cases.',
      'The tests run a handful of fixed grids with no failures.',
      ['beluga/continuation/continuation.py'],
      [('ManualStrategy / BisectionStrategy / ProductStrategy / SparseProductStrategy', 'beluga/continuation/continuation.py')],
      VG + 'Product strategies are unrolled for small numbers of constants and values; the others hold for any number.'),
    P('C11', 'The continuation driver solves every case in order and returns every result',
      'Each case of each step is handed to the solver once, in order, with its own constants and, as starting guess, the '
      'nearest solution of the step that converged; the next step starts from the last solution. Solver input is '
      'scaled and its output unscaled exactly when scaling is asked for, and every solution is returned in order, with '
      'the convergence flag the solver gave it.',
      ['inputs', 'histories', 'configurations'],
      'Any problem and solver results, with and without scaling, for each strategy, any pattern of failures.',
      'The tests run whole optimisations and only look at the final point.',
      ['beluga/beluga.py', 'beluga/continuation/continuation.py'],
      [('run_continuation_set', 'beluga/beluga.py'), ('ContinuationStrategy', 'beluga/continuation/continuation.py')],
      VG + 'The solver is an arbitrary function of its guess; strategies are unrolled over a few cases.'),
    P('C18', 'Substitution and parsing reach every part of the problem',
      'Parsing the problem turns every expression, bound, unit and cost the user gave into its symbolic form, and a '
      'problem-wide substitution replaces the symbol in every equation, cost, constraint, quantity, unit and symmetry. '
      'Named quantities, also those that use other quantities, are replaced by their definitions everywhere.',
      ['inputs', 'programs'],
      'Any number of components of every kind and any expressions.',
      'The tests cover a few component kinds; a kind that is skipped only fails for problems that use it.',
      ['beluga/symbolic/data_classes/components_structures.py', 'beluga/symbolic/data_classes/symbolic_problem.py', MF],
      [('sympify_self / subs_self', 'beluga/symbolic/data_classes/components_structures.py'),
       ('sympify / subs_all', 'beluga/symbolic/data_classes/symbolic_problem.py'), ('ApplyQuantities', MF)],
      VG),
    P('C09', 'A solution is called converged only if its residual is small or scipy said so',
      'A solution comes back flagged as converged only if the root finder reported success or the boundary-condition '
      'residual at the very unknowns of the returned solution is within the tolerance. A solver failure or an aborted '
      'iteration is never reported as convergence, and an unknown algorithm is rejected.',
      ['inputs', 'configurations', 'fault_sequences'],
      'Every guess, problem, tolerance and root finder, any outcome of the library routine.',
      'The tests look at runs that converge; the flag matters for those that do not.',
      ['beluga/numeric/bvp_solvers/Shooting.py', 'beluga/numeric/bvp_solvers/SPBVP.py'],
      [('Shooting.solve', 'beluga/numeric/bvp_solvers/Shooting.py')],
      VG + 'Library root finders are arbitrary functions; problem sizes are small constants, values are symbolic.'),
    P('C13', 'Solving with a process pool gives what solving without one gives',
      'With a pool of worker processes, multiple shooting evaluates the same residual for every vector of unknowns and '
      'returns the same solution as without one. The pool only changes where the arcs are propagated.',
      ['inputs', 'schedules', 'configurations'],
      'Every problem size, number of arcs and unknowns; any distribution of the arcs over workers.',
      'No test uses a pool.',
      ['beluga/numeric/bvp_solvers/Shooting.py'],
      [('serial and parallel propagation of arcs', 'beluga/numeric/bvp_solvers/Shooting.py')],
      VG + 'The map of a pool is taken to return its results in order.'),
    P('C14', 'The control law makes the Hamiltonian stationary and least',
      'The differential control law turns each control into a state whose rate keeps the derivative of the Hamiltonian '
      'with respect to every control constant along the motion, and pins these derivatives to zero at one end. The '
      'algebraic law solves the stationarity equations for all controls, and where there are several candidates the one '
      'with the least Hamiltonian is applied, at every node. Problems that are not dualized and unknown methods are rejected.',
      ['inputs', 'programs', 'configurations'],
      'Every Hamiltonian, any number of states and costates, one to three controls and candidates, both formulations.',
      'The tests solve problems with one control and one candidate or look at the converged result only.',
      [MF, TM], [('DifferentialControlLaw / AlgebraicControlLaw', MF), ('AlgebraicControlMapper', TM)],
      VG + 'The equation solver of the symbolic library is trusted to return solutions; the linear solver is modelled '
      'exactly for a regular matrix.'),
    P('C15', 'The reported cost is the cost of the user\'s problem',
      'The cost reported with a solution is the user\'s initial cost at the first node plus the terminal cost at the last '
      'node plus the integral of the running cost over the trajectory, each evaluated with the states, controls, '
      'parameters and constants of that solution.',
      ['inputs', 'programs'],
      'Every problem and trajectory, with and without quadratures, both formulations.',
      'One test compares the reported cost of one problem.',
      [TM, MF], [('DualizeMapper.inv_map', TM)], VG + 'The library quadrature rule is trusted.'),
    P('C16', 'Multiple shooting solves for, and returns, the arcs it was given',
      'The vector of unknowns, the residual and the stitched solution of multiple shooting refer to the same arcs, '
      'states, quadratures, parameters and multipliers in the same order, for any number of arcs. The residual holds the '
      'boundary conditions between the first and the last arc and the jump between each pair of neighbouring arcs, and '
      'the returned trajectory joins the arcs in order with the parameters that were found.',
      ['inputs', 'configurations'],
      'Every guess and problem size, any number of arcs, every root finder.',
      'The tests use one or two arcs of parameter-free problems.',
      ['beluga/numeric/bvp_solvers/Shooting.py', 'beluga/numeric/bvp_solvers/BaseAlgorithm.py'],
      [('Shooting.solve', 'beluga/numeric/bvp_solvers/Shooting.py')],
      VG + 'Numbers of arcs (up to 4), states and parameters are enumerated; values are symbolic.'),
    P('C26', 'Making time a state and the geometry behind it are canonical',
      'The momentum shift adds time as the last state with rate one and its own unit, renames the independent variable, '
      'and counts time as a symmetry exactly when no rate and no running cost depends on it. The geometric formulation '
      'uses an antisymmetric form whose vector field gives the canonical equations, and each symmetry yields the '
      'conserved sum of costates times its field. Ill-shaped forms are rejected.',
      ['inputs', 'programs'],
      'Every problem with any number of states and expressions for the shift; every form and symmetry up to five pairs.',
      'The tests look at two small forms with numbers.',
      [MF, 'beluga/symbolic/differential_geometry/differential_geometry.py'],
      [('MomentumShift', MF), ('symplectic form, vector field, noether',
                               'beluga/symbolic/differential_geometry/differential_geometry.py')],
      VG + 'Dimensions of the geometric part are enumerated, entries are symbolic.'),
    P('C27', 'Collocation hands over and reads back the problem in one layout',
      'The collocation solver hands the library the rates, boundary conditions and Jacobians of the problem with states, '
      'quadratures, parameters and multipliers each in their own slots, and reads the solution back from the same slots. '
      'The returned solution keeps the constants of the guess.',
      ['inputs', 'configurations'],
      'Every problem size and guess, with and without analytical Jacobians.',
      'The tests have no problem with quadratures, parameters and multipliers together.',
      ['beluga/numeric/bvp_solvers/SPBVP.py'], [('SPBVP.solve', 'beluga/numeric/bvp_solvers/SPBVP.py')],
      VG + 'The library collocation routine is arbitrary; sizes are enumerated, values symbolic.'),
    P('C17', 'The problem builder keeps exactly what the user declared',
      'Every state, control, quantity, constant, parameter, constraint, cost, bound and unit the user declares is kept '
      'with the arguments given for it, in the order of declaration, and in no other slot. Declaring a name twice is '
      'rejected, and so is a problem without states or with costs whose units disagree.',
      ['inputs', 'histories', 'programs'],
      'Every sequence of declarations with any arguments.',
      'The tests declare a few small problems; a swapped bound or unit only shows in the optimum of some other problem.',
      ['beluga/symbolic/data_classes/symbolic_problem.py', 'beluga/symbolic/data_classes/components_structures.py'],
      [('Problem builder methods', 'beluga/symbolic/data_classes/symbolic_problem.py')], VG),
    P('C19', 'Transformations are applied in the order the chosen method needs',
      'For every choice of method and options the chain of problem transformations has the steps the options ask for, in '
      'the one valid order, with the user\'s options handed on. Composing chains keeps the operands unchanged and applies '
      'the parts in the order written, and an unknown method is rejected.',
      ['configurations', 'programs'],
      'Every combination of method and options, every composition of chains.',
      'The tests run the default chain; the options multiply into combinations nobody runs.',
      [MF, 'beluga/symbolic/data_classes/symbolic_problem.py'],
      [('make_indirect_method / make_direct_method / preprocessor / postprocessor', MF)], VG),
    P('C20', 'Tables and custom functions come with their true derivatives',
      'A table is the natural cubic spline through its data, continued by its end pieces, and its derivative of each order '
      'is the derivative of that spline. Differentiating a user\'s function in an argument gives a function that '
      'approximates exactly that partial derivative, by the method asked for, is exact on polynomials of that degree, and '
      'is evaluated under a name no other derivative has. Wrong numbers of arguments and unknown methods are rejected. '
      'Expressions are parsed and evaluated with the symbols and functions registered for them.',
      ['inputs', 'programs', 'configurations'],
      'Every data set (three to six points), every evaluation point and step, every function and order of derivative up '
      'to four in up to three arguments.',
      'The tests compare a few values of one table and one function with a tolerance.',
      ['beluga/symbolic/special_functions/tables.py', 'beluga/symbolic/special_functions/custom_functions.py',
       'beluga/numeric/numerical_derivatives/finite_diff.py', 'beluga/numeric/numerical_derivatives/complex_step.py'],
      [('TableSpline1D', 'beluga/symbolic/special_functions/tables.py'),
       ('CustomFunction.fdiff', 'beluga/symbolic/special_functions/custom_functions.py'),
       ('gen_fin_diff / gen_csd', 'beluga/numeric/numerical_derivatives/finite_diff.py')],
      VG + 'Real arithmetic: rounding of the difference quotients is not bounded.'),
    P('C21', 'Loading gives back what was saved',
      'Loading a saved file gives back exactly the problem, the numerical problem and the solutions that were saved last '
      'under that name. Parts that were not given are absent.',
      ['inputs', 'histories'],
      'Every content, every sequence of saves and loads.',
      'A test saves one object once.',
      ['beluga/utils/storage.py', 'beluga/utils/helper_functions.py'],
      [('save / load', 'beluga/utils/storage.py')],
      VG + 'The library serializer is trusted to return what it was given.'),
    P('C23', 'Propagation integrates the given dynamics; trajectories read back right',
      'Propagating hands the integrator the rates, interval, initial state, tolerances, parameters and constants it was '
      'given, and the returned quadratures are the initial ones plus their integrals along the trajectory. A trajectory '
      'keeps every field per node: evaluating it between nodes, indexing it and asking its length treat time, states, '
      'costates, quadratures and controls consistently, and times outside it are rejected.',
      ['inputs', 'configurations'],
      'Every dynamics, interval, state size and option.',
      'The tests propagate one or two fixed systems.',
      ['beluga/numeric/ivp_solvers/ivpsol.py', 'beluga/numeric/data_classes/Trajectory.py'],
      [('Propagator', 'beluga/numeric/ivp_solvers/ivpsol.py'), ('Trajectory', 'beluga/numeric/data_classes/Trajectory.py'),
       ('integrate_quads', 'beluga/numeric/ivp_solvers/ivpsol.py')],
      VG + 'The library integrator and interpolator are arbitrary functions of their arguments.'),
    P('C24', 'The guess follows the options the user gave it',
      'A guess starts (or ends, when run backwards) at the values the user gave, with the costates, parameters and '
      'interval the user gave, propagated through the problem\'s dynamics; a static guess is the user\'s own trajectory, '
      'left unchanged. Constants that name a state at the initial or terminal point are set from the guess, and unusable '
      'options are rejected.',
      ['inputs', 'configurations'],
      'Every problem size and option value.',
      'The tests use the default options of one generator.',
      ['beluga/continuation/guess_generators.py'],
      [('GuessGenerator', 'beluga/continuation/guess_generators.py'),
       ('match_constants_to_states', 'beluga/continuation/guess_generators.py')], VG),
    P('C28', 'Solving runs every stage, in order, with the user\'s options',
      'A solve call transforms and compiles the user\'s problem, makes the guess, runs the continuation with the chosen '
      'solver and returns, in order, the solutions mapped back to the user\'s own problem with their controls. Each '
      'option reaches the stage it belongs to, the user\'s problem object stays as it was, and the results are saved when '
      'asked for; missing inputs are rejected.',
      ['inputs', 'configurations', 'programs'],
      'Every problem, option combination and number of continuation steps and solutions.',
      'The tests call solve with few option combinations and only look at the final state.',
      ['beluga/beluga.py'],
      [('solve', 'beluga/beluga.py'), ('run_continuation_set', 'beluga/beluga.py'),
       ('postprocess_continuations', 'beluga/beluga.py')], VG),
    P('C25', 'Log messages reach the screen and the log file by their level',
      'After setting up the log, a message is shown on the screen exactly when it reaches the display level, and written to '
      'the named file exactly when a file level is given and it reaches that level. Setting up the log again replaces the '
      'earlier screen and file outputs. Texts fitted to a width keep the width and their beginning.',
      ['inputs', 'histories'],
      'Every combination of levels, every message level, and repeated set-ups.',
      'No test looks at the log; most combinations of levels are never used.',
      ['beluga/utils/logging.py', 'beluga/beluga.py'],
      [('init_logging', 'beluga/utils/logging.py'), ('fit_string', 'beluga/utils/logging.py'), ('add_logger', 'beluga/beluga.py')],
      'All combinations of the standard levels are enumerated; the logger and its handlers are recording stand-ins in the '
      'abstract heap.'),
    P('C29', 'Every component a transformation introduces has the unit its meaning implies',
      'The costates, coparameters, constraint multipliers, Hamiltonian, constants of motion, control states, durations, '
      'momentum-shift states and trigonometric controls that the transformations add carry the unit that dimensional '
      'consistency with the user\'s units implies, and so do the cost units derived from the parts of the cost. The '
      'automatic scaling of the solver relies on it.',
      ['inputs', 'configurations'],
      'Every problem: any number of states, parameters, controls, constraints and symmetries, any units.',
      'No test looks at the unit of a derived component; a wrong one only worsens the scaling.',
      ['beluga/symbolic/data_classes/mapping_functions.py', 'beluga/symbolic/data_classes/components_structures.py'],
      [('Dualize', 'beluga/symbolic/data_classes/mapping_functions.py'),
       ('DifferentialControlLaw', 'beluga/symbolic/data_classes/mapping_functions.py'),
       ('NormalizeTime', 'beluga/symbolic/data_classes/mapping_functions.py'),
       ('MomentumShift', 'beluga/symbolic/data_classes/mapping_functions.py'),
       ('EpsTrig', 'beluga/symbolic/data_classes/mapping_functions.py'),
       ('SquashToBVP', 'beluga/symbolic/data_classes/mapping_functions.py'),
       ('CostStruct', 'beluga/symbolic/data_classes/components_structures.py')], VG),
]

NUM = 'Quantifies over floating-point results of iterative numerical routines; no static argument in reach bounds them.'
NA = [
    P('N01', 'Converged solutions satisfy the optimality conditions to the tolerance',
      'A solution flagged as converged satisfies the differential equations and boundary conditions of the dual problem '
      'within the requested tolerance, in real arithmetic.',
      ['inputs'], 'Every problem, guess and tolerance.', 'Tests compare a few problems with known solutions.',
      ['beluga/numeric/bvp_solvers/Shooting.py', 'beluga/numeric/bvp_solvers/SPBVP.py'],
      [('solve', 'beluga/numeric/bvp_solvers/Shooting.py')], '',
      reason=NUM + ' The parts that do not depend on magnitudes are C09 (the flag), C16 and C27 (the equations posed).'),
    P('N02', 'Propagated trajectories are accurate to the requested tolerances',
      'The trajectory returned by the propagator stays within the requested tolerances of the exact solution of the '
      'differential equation.',
      ['inputs'], 'Every right-hand side, interval and tolerance.', 'Tests propagate linear systems with known solutions.',
      ['beluga/numeric/ivp_solvers/ivpsol.py'], [('Propagator', 'beluga/numeric/ivp_solvers/ivpsol.py')], '',
      reason=NUM + ' That the integrator is given the right problem and tolerances is C23.'),
    P('N03', 'Continuation reaches the target whenever a path of solutions exists',
      'If a connected family of solutions leads from the guess to the target values, the continuation with bisection reaches '
      'the target.',
      ['inputs', 'histories'], 'Every problem and target.', 'Success depends on the basin of attraction of each solve.',
      ['beluga/continuation/continuation.py'], [('BisectionStrategy', 'beluga/continuation/continuation.py')], '',
      reason='Depends on the convergence basin of the nonlinear solver, a runtime quantity; the bookkeeping of the steps is '
             'C10 and C11.'),
    P('N04', 'Every stationary control is among the candidates of the control law',
      'The algebraic control law lists every control at which the Hamiltonian is stationary.',
      ['programs'], 'Every Hamiltonian.', 'Tests use Hamiltonians with two stationary points.',
      ['beluga/symbolic/data_classes/mapping_functions.py'],
      [('AlgebraicControlLaw', 'beluga/symbolic/data_classes/mapping_functions.py')], '',
      reason='Rests on the completeness of sympy.solve, which is undecidable for general expressions; that all solutions '
             'sympy returns are kept and compared is C14.'),
    P('N05', 'Reduction by symmetry keeps the solution set of the full problem',
      'Reducing a dual problem by its conserved quantities leaves a problem whose solutions are the solutions of the full '
      'problem on the chosen level set, and lifting a reduced solution back recovers the full one.',
      ['programs'], 'Every problem with symmetries.', 'Only whole examples exercise the reduction.',
      ['beluga/symbolic/data_classes/mapping_functions.py'],
      [('MishchenkoFomenko', 'beluga/symbolic/data_classes/mapping_functions.py')], '',
      reason='The eliminated pair of variables is whatever sympy.solve returns first for arbitrary expressions and validity '
             'holds only where the solved relation is invertible; the ingredients (conserved quantities, canonical form, '
             'column bookkeeping) are C26, C01 and C02.'),
]
