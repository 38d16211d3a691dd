prop('C01', 'Units form an exact algebra of base-dimension exponents',
     'Multiplying, dividing and raising units adds, subtracts and scales the exponents of the seven base dimensions, and '
     'adding or subtracting units is accepted exactly when all seven exponents agree (otherwise a dimensional coherence '
     'error is raised). An operation never alters its operands or any other unit, in particular the predefined ones, '
     'which keep their documented dimensions. A unit whose exponents cancelled out behaves like any dimensionless unit.',
     ['programs', 'inputs'], 'for every finite sequence of unit operations over any units',
     'The existing tests never assert a derived unit; only chains of operations reveal aliasing or a lost exponent.',
     ['core/unit.py', 'core/template_units.py'],
     [('unit operators', 'core/unit.py'), ('predefined units', 'core/template_units.py')],
     'All chains of <=3 operations (thorough 4) over 8 roots, all pairs of the predefined units, all dictionaries over '
     '<=3 base dimensions; oracle: exponent vectors.')

prop('C02', 'Expressions carry the right dimension; incoherent ones are refused',
     'The unit of any expression built from variables, parameters, constants, derivatives and numbers is the one '
     'dimensional analysis assigns (plain numbers adopt the unit of the other term of a sum). Sums, differences, Min/Max '
     'of different dimensions, dimensional exponents and dimensional arguments of transcendental functions are refused '
     'with an error, and coherent ones are always accepted.',
     ['programs'], 'for every expression that can be written with the operators and functions',
     'Tests use a few hand-written coherent equations; the guarantee concerns every expression, including rejections.',
     ['core/expression_evaluation.py', 'core/equation_operators.py', 'core/unit.py'],
     [('operators of expression nodes', 'core/expression_evaluation.py'),
      ('functions on expression nodes', 'core/equation_operators.py')],
     'All expressions of <=2 operations (thorough 3, reduced alphabet) over 10 leaves and 4 numbers; oracle: exponent '
     'arithmetic. The unit of a function of a power with unspecified exponent is not fixed.')

prop('C03', 'Expressions evaluate to the value of the mathematics they spell',
     'Evaluating an expression at given values of its unspecified objects yields what ordinary arithmetic yields for the '
     'same formula, with specified objects standing for their value. Its textual form, which shows every object by name, '
     'denotes the same value.',
     ['programs', 'inputs'], 'for every expression and every assignment at which it is defined',
     'Tests evaluate a handful of formulas; operand order, reflected operators and specified/unspecified mixes are a '
     'combinatorial space.',
     ['core/expression_evaluation.py', 'core/equation_operators.py', 'core/equation.py'],
     [('operators of expression nodes', 'core/expression_evaluation.py'),
      ('functions', 'core/equation_operators.py'), ('evaluation', 'core/equation.py')],
     'All expressions of <=2 operations (thorough 3) over 10 leaves, 5 numbers, at 2 assignments; points where the '
     'formula is undefined are skipped.')

prop('C04', 'Expressions keep exact books and have no side effects',
     'An expression reports as used exactly the objects it was built from (the very same objects), and as unknown exactly '
     'those that had no specified value. Building an expression never alters its operands, the objects, their units, or '
     'other expressions, and later assignments of values leave expressions built earlier unchanged.',
     ['programs', 'histories'], 'for every expression and every interleaving of building and assigning values',
     'Aliasing and lost bookkeeping only show for particular combinations of operands and later operations.',
     ['core/expression_evaluation.py', 'core/equation_operators.py', 'core/quantity.py'],
     [('maps of expression nodes', 'core/expression_evaluation.py')],
     'All expressions of <=2 operations (thorough 3); earlier expressions re-examined after each step and after values '
     'are assigned.')

prop('C05', 'Expressions are classified linear, nonlinear or differential correctly',
     'An expression, and an equation declared with it, is differential exactly when a derivative occurs in it. Otherwise '
     'it is nonlinear whenever unknowns are multiplied together, divided by, raised to a power or passed to a function, '
     'and linear when unknowns are only added, subtracted, and multiplied or divided by specified values.',
     ['programs'], 'for every expression',
     'The classification selects the solver; tests have few shapes of equations.',
     ['core/expression_evaluation.py', 'core/equation_operators.py', 'core/equation.py'],
     [('precedence of classes', 'core/expression_evaluation.py'), ('type of an equation', 'core/equation.py')],
     'All expressions of <=2 operations (thorough 3) over 11 leaves incl. derivatives; trivial powers (0, 1) and '
     'functions of specified values only are not fixed.')

prop('C06', 'Assigning values keeps value, unit and specified flag consistent',
     'Assigning a number, a number with a coherent unit, or another quantity of the same kind and dimension gives the object that '
     'value and marks it specified, without changing its unit, name or the source; anything else is refused with an error '
     'and leaves the object as it was. From then on expressions of the object stand for the value assigned last, and '
     'expressions built earlier keep what they stood for.',
     ['histories'], 'for every sequence of assignments, valid and invalid',
     'Tests make one assignment per object; precedence of checks and leftovers of refused assignments need sequences.',
     ['core/quantity.py', 'core/variable.py', 'core/parameter.py', 'core/constant.py'],
     [('assignment', 'core/quantity.py'), ('calling an object', 'core/quantity.py')],
     'All histories of <=3 (thorough 4) assignments from 17 kinds, for the four classes and 3 units. A quantity assigned '
     'together with an explicit unit is left out.')

prop('C07', 'Arithmetic between quantities matches numbers with units',
     'Adding, subtracting, multiplying, dividing and raising quantities of one kind yields a new quantity of that kind '
     'whose value and unit are those of the arithmetic; sums of different dimensions are refused. Operands are not '
     'altered, whatever the chain of operations, including an object combined with itself.',
     ['programs'], 'for every chain of operations over quantities',
     'Tests never use the arithmetic of quantities beyond single results.',
     ['core/quantity.py', 'core/unit.py'], [('operators of quantities', 'core/quantity.py')],
     'All chains of <=3 operations (thorough 4) over 6 quantities of each of the four kinds.')

prop('C08', 'Residual and two-sided equations denote the same relation',
     'An equation declared as left == right (right may be a number) has residual left - right and returns and evaluates '
     'its two sides unchanged; declared as one expression it has only the residual, and asking for a side is an error. '
     'Values are those given, else the current values of its objects, and the functions compiled from it agree for any '
     'order of arguments. It uses exactly the objects of both sides, and a redefinition replaces the previous one.',
     ['programs', 'inputs', 'histories'], 'for every pair of sides, form, assignment and sequence of redefinitions',
     'Tests evaluate a few residuals; forms, sides, compilation and current values multiply.',
     ['core/equation.py'], [('setting the expression', 'core/equation.py'), ('evaluation', 'core/equation.py'),
                            ('compilation', 'core/equation.py')],
     'All 27 x 31 pairs of sides in both forms, 2 assignments, 3 compilation backends, redefinition histories of <=3 '
     '(thorough 4).')


prop('C09', 'Models register what they declare, and only accept closed equations',
     'Every variable, parameter, constant and equation declared in a model is registered there, and only there, once, in '
     'declaration order, under the declared name extended by the name of the model, with the unit, description, bounds and '
     'exposure given. An equation is accepted exactly when all its objects are declared in the model (or the check is '
     'switched off); otherwise an error is raised and the model stays as it was. Preparing the model again, any number '
     'of times, gives the same set of objects and equations.',
     ['histories'], 'for every sequence of declarations, accepted and refused, over several models',
     'Tests declare one object each; shared registers, stale state and accepted foreign objects need sequences.',
     ['model.py', 'core/equation.py'],
     [('declarations', 'model.py'), ('check of the objects of an equation', 'model.py')],
     'All histories of <=3 (thorough 4) declarations from 15 kinds over two models, all distributions of declarations over '
     'constructor and hooks. The order of repeated names in the list of exposed variables is not fixed.')

prop('C10', 'Incorporating a model copies what was asked, faithfully',
     'A model that incorporates another one gets its own copies of the chosen objects (renamed unless asked not to) with '
     'the same value, unit and exposure, and equations over its own copies that evaluate, side by side, as the original '
     'ones and have the same class. The incorporated model is not altered, and later changes of either model do not reach '
     'the other, also along chains of incorporations.',
     ['histories', 'inputs'], 'for every kind of model, choice of what to incorporate, and later change',
     'Sharing between copy and original shows only after later changes, for particular kinds of equations.',
     ['model.py', 'core/equation.py'], [('incorporation', 'model.py'), ('replacing objects', 'core/equation.py')],
     'All choices of kinds of objects x renaming x forms of equation x values x later changes, chains of <=2 (thorough 3) '
     'incorporations. Incorporating the same source twice is not fixed.')

prop('C11', 'The system of a problem is the sum of its models',
     'The system of a problem consists of exactly the equations of its models, in the order added, over exactly the '
     'variables and parameters that these use (the very objects of the models), and it is linear, nonlinear, differential '
     'or differential-algebraic as its equations are. Resolving it again changes nothing unless the models changed, in '
     'which case the system follows.',
     ['histories'], 'for every sequence of adding models, extending them and resolving',
     'Tests resolve a problem once; lost or duplicated equations depend on the sequence.',
     ['problem.py', 'core/equation_block.py', 'model.py'],
     [('assembly', 'problem.py'), ('system of equations', 'core/equation_block.py')],
     'All histories of <=3 (thorough 4) steps from 20, over six models; resolved twice.')

prop('C12', 'Connections join exposed variables by exactly the relation asked',
     'A connection adds to the receiving model one equation: the inputs of that model sum up to the outputs of the other '
     'one, or the relation given instead. Variables that are not exposed in the required direction by the model in '
     'question are refused with an error and nothing changes. Any number of connections coexist, and none is lost or '
     'repeated when the problem is resolved.',
     ['histories'], 'for every sequence of connections, allowed or refused, between any models',
     'Tests connect one variable to another; replaced, swapped or half-made connections need sequences and lists.',
     ['problem.py', 'connection.py', 'model.py'],
     [('connecting', 'problem.py'), ('relation', 'connection.py')],
     'All histories of <=2 (thorough 3) connections from 121 (lists, directions, exposure, relation, source by model '
     'or name) over three models, resolved in between or not.')


prop('C13', 'Ill-posed systems are refused before solving, well-posed ones are not',
     'Running a simulation is refused with an error, before any result is produced, exactly when the number of unknowns '
     '(variables in use plus parameters without a value) differs from the number of equations, a time variable that appears '
     'explicitly in a differential equation being determined by the integration. The error tells whether the system is '
     'under- or over-specified, and switching the check off skips it. The verdict follows the system as it is after values '
     'are given or equations added.',
     ['programs', 'histories'], 'for every system of equations and every change of it',
     'Tests run well-posed systems; the count goes wrong for particular mixes of parameters, names and time variables.',
     ['analysis.py', 'core/equation_block.py', 'simulation.py'],
     [('degrees of freedom', 'analysis.py'), ('search of the time variable', 'core/equation_block.py')],
     'All sequences of <=3 (thorough 4) equations from 17, over one or two models, and <=2 (thorough 3) changes. Systems '
     'without equations and variables with a fixed value are not covered.')

prop('C14', 'Algebraic problems: the results satisfy every equation, or an error is raised',
     'Running an algebraic problem either gives a value for each unknown such that all equations hold, or raises an error; '
     'systems without solution always raise. A linear system with a unique solution is always solved, and a nonlinear one '
     'from a guess next to a root gives that root, whatever the solver, the form of the equations, or the order and '
     'models in which they were declared. Results follow the values in force when the problem was last resolved, and '
     'running again gives the same.',
     ['inputs', 'programs', 'histories'], 'for every algebraic system, solver, guess, order and sequence of runs',
     'Tests solve about five systems in one form and order each.',
     ['solvers.py', 'core/equation_block.py', 'simulation.py'],
     [('linear solvers', 'solvers.py'), ('nonlinear solver', 'solvers.py'), ('assembly of the system',
                                                                             'core/equation_block.py')],
     'Systems of up to 13 (thorough 40) unknowns. All 1-2 unknown systems over {-1,0,1,2}, all 3-unknown ones over {0,1} (thorough {-1,0,1}), 3 solvers; 6 systems in '
     'all orders x 7 forms; 19 nonlinear systems from all roots; histories of <=3 (thorough 4). Abs in nonlinear systems '
     'may raise; complex results of the symbolic solver are accepted where no real root exists.')


prop('C15', 'Simulations of differential equations follow the equations declared',
     'Simulating a system of ordinary differential equations stores, at exactly the output times asked for and from the '
     'initial conditions given, the trajectory that these equations have, under the name (or new name) of each variable. '
     'Solver, compilation, order of equations, declarations and table columns, split over models and explicit use of time '
     'make no difference beyond solver tolerance. Later runs follow changed conditions and resolved changes of values and '
     'add their rows unless reset; a missing initial condition is an error.',
     ['programs', 'inputs', 'histories'], 'for every system, configuration and sequence of runs',
     'Tests run two systems in one order from time zero; columns and equations swapped by other orders go unseen.',
     ['solvers.py', 'core/equation_block.py', 'simulation.py', 'core/domain.py'],
     [('differential solver', 'solvers.py'), ('compiled system', 'core/equation_block.py'), ('results', 'core/domain.py')],
     '12 systems of 1-3 states: all orders, 60 configurations; a chain of 12 (thorough 40) states; histories of <=3 (thorough 4) from 11; relative tolerance '
     '2e-5. CVODE through a stand-in for the package assimulo, which is absent here; RADAU is not implemented.')

prop('C16', 'Differential-algebraic simulations satisfy all equations at every output',
     'Simulating a differential-algebraic system stores, at the output times asked for, values which satisfy its algebraic '
     'equations and follow its differential ones from the initial conditions of the differentiated variables, whatever the '
     'initial values of the others. Order of equations, declarations and columns, form of the equations, and split over '
     'models make no difference. A missing initial condition is an error.',
     ['programs', 'inputs', 'histories'], 'for every system, order, configuration and sequence of runs',
     'Tests run one system; a derivative or variable taken for another depends on order.',
     ['solvers.py', 'core/equation_block.py', 'simulation.py', 'core/domain.py'],
     [('differential-algebraic solver', 'solvers.py'), ('mapping of derivatives', 'core/equation_block.py')],
     '8 systems of 2-4 unknowns: all orders of equations (declarations and columns thinned in the quick tier); chains of '
     'up to 14 (thorough 24) unknowns; histories '
     'of <=2 (thorough 3) from 9. IDA through a stand-in (Radau IIA) for the package assimulo, which is absent here. '
     'Explicit time is not supported by the code.')

prop('C17', 'Domains keep every registered row under the right heading',
     'A domain holds, for each independent variable, a table with one column per independent and distributed variable, in '
     'order, and the rows registered since it was last set up, in order; reading a column gives these values. Malformed rows '
     'are refused and leave the tables as they were, renaming changes the headings only, and resetting or distributing a '
     'variable empties the tables. Domains do not influence each other.',
     ['histories'], 'for every sequence of distributing, registering, renaming, resetting and reading',
     'Tests never use a domain apart from one simulation.',
     ['core/domain.py', 'core/variable.py'], [('domain', 'core/domain.py')],
     'All histories of <=4 (thorough 5) steps from 17, over two domains sharing variables, with one or two independent '
     'variables.')

prop('C18', 'Simulations run with the configuration last set, apart from one another',
     'A simulation runs with exactly the configuration last set: the documented defaults, overridden by the arguments, '
     'overridden by the entries of the dictionary or file given, which may name only some settings and are not altered; the '
     'time variable defaults to that of the problem. Loading a dumped configuration reproduces the results of an algebraic '
     'simulation. Simulations do not influence the configuration or results of each other; parameters looked up in a '
     'simulation are those of its problem; invalid requests are errors.',
     ['inputs', 'histories'], 'for every combination of settings and sources and every sequence of steps on several simulations',
     'Tests configure one simulation once, by arguments; leftovers and shared defaults show only with several.',
     ['simulation.py'], [('configuration and results', 'simulation.py'), ('compilation of arguments', 'core/equation_block.py')],
     'All pairs of 24 settings x 7 ways to give them, on a fresh and a configured simulation; histories of <=3 (thorough 4) '
     'from 14 over two simulations. Dumps of dynamic configurations hold a domain, which JSON refuses: not covered.')

prop('C19', 'Optimizations return the best admissible evaluation and disturb nothing else',
     'An optimization evaluates its objective only within the bounds in force (constraints of the study, in list or '
     'per-parameter form, before those of the problem), and returns the parameters and fitness of the best evaluation, '
     'lowest or, for a maximization, highest. The algorithm runs with the settings given over the defaults, from dictionary '
     'or file. Objectives which run the simulation see its results for the values set, and the simulation, parameters and '
     'results given remain as they were. Studies do not influence each other; invalid requests are errors.',
     ['inputs', 'histories'], 'for every optimizer, objective, form of the bounds, configuration and sequence of studies',
     'Tests run one study with one optimizer, bounds form and objective, and do not look at evaluations.',
     ['optimization.py'], [('optimization problem and study', 'optimization.py')],
     '4 optimizers x 1-3 dimensions x 3 objectives x forms and sources of bounds x directions x 2-4 (thorough 16) seeds; '
     '19 settings one at a time; histories of <=3 (thorough 4) from 9. User-defined optimizers, constraint functions and '
     'graphs are not implemented or not covered.')

prop('C20', 'Unit operations satisfy their balances, alone and connected',
     'In the results of a simulation each unit of the library (mixer, splitter, valve, pump, heater, cooler) fulfils its '
     'mass, molar, momentum, energy and temperature balances, and fractions pass unchanged, for the parameters and feed in '
     'force when the problem was last resolved, whatever the order of declaration and connection. Inlet streams determine '
     'pressure and temperature by their minimum and are not changed. A tank accumulates moles, mass, energy and level as its '
     'flows and heat say.',
     ['inputs', 'programs', 'histories'], 'for every chain of units, parameters, feed, streams and sequence of changes',
     'Active tests do not simulate any unit of the library.',
     ['unit_op_library.py', 'model.py', 'problem.py'], [('units', 'unit_op_library.py'), ('totalization of inlets', 'model.py'),
                                                        ('connections', 'problem.py')],
     'Chains of <=2 (thorough 3) of 6 units x 3 parameter sets x 2 feeds, 1-3 phases; 1-3 and 12 inlet streams; histories of <=3 '
     '(thorough 4) from 7. Flash units and valves, heaters and tanks without property package are not finished in the code: '
     'not covered.')

prop('C21', 'Property packages and streams keep to their own species and conditions',
     'A property package knows exactly the species given and merged into it, with their properties at the conditions it was '
     'last calculated for; merging or recalculating does not change the species of another, nor the defaults of new ones. Mixture '
     'fractions agree by molar mass. A resolved stream keeps the values given, derives the missing one of mass and molar '
     'flow by the molar mass, and puts its package at its temperature and pressure. Malformed requests are errors.',
     ['histories', 'inputs'], 'for every sequence of merges and calculations, every composition and every stream',
     'Active tests use no property package.',
     ['core/property_package.py', 'unit_op_library.py'], [('property package', 'core/property_package.py'),
                                                          ('streams', 'unit_op_library.py')],
     'Histories of <=3 (thorough 4) from 12 over three packages of three species; compositions in steps of 1/8; 3 kinds of '
     'stream. Conditions of a species that two merged packages share are not compared once one of them is recalculated.')

prop('C22', 'Plots draw exactly the data asked for',
     'A plot of time series shows one curve for every pair of abscissa and ordinate, with exactly the data given or held by '
     'the domain under the names given, with the labels, markers, width, titles, grid and legend asked for. It is shown and '
     'written to a file exactly when asked for; nothing of one plot appears in the next, results are not changed by plotting, '
     'and names which do not exist are a ValueError. The graph saved by an optimization draws the best fitness of its own log '
     'against the evaluations.',
     ['inputs', 'histories'], 'for every combination of data and options and every sequence of plots and runs',
     'Active tests do not look at what is drawn.',
     ['plotter.py', 'simulation.py', 'core/domain.py', 'optimization.py'], [('plotter', 'plotter.py'), ('lookup of columns', 'core/domain.py')],
     '1-2 abscissas x 1-3 ordinates x arrays, names or renamed names x 2^7 options; histories of <=2 (thorough 3) from 8; 4 optimizers x 16 graphs.')

prop('C23', 'Printed reports and tables agree with the model and the results',
     'The report of a model or problem has one row per equation, in order of declaration, with its name, description, '
     'variables, parameters and constants (those with values marked), class, and a relation which is numerically its '
     'left minus right side. After a run, the residuals listed are those of each equation at the results; the results '
     'shown are those of the last successful run, each with its unit. Nothing is shown before a run or announced as '
     'successful after a failure; making a report changes nothing.',
     ['inputs', 'histories'], 'for every sequence of equations and choice of values, every system, and every history of runs and changes',
     'Active tests never look at what is printed.',
     ['analysis.py', 'simulation.py', 'model.py'], [('reports', 'analysis.py'), ('tables of results and residuals', 'simulation.py'),
                                                    ('model information', 'model.py')],
     'Sequences of <=3 (thorough 4) equations from 12 x 8 choices of values; 6 systems x 6 units x 3 solvers; histories of <=4 '
     '(thorough 5) from 6; dynamic tables for 6 orders x 3 lengths, with output_headers in the order of the equations (the '
     'default of no headers is not supported by showResults).')

prop('C24', 'Work in several threads gives what each thread gets alone',
     'Threads which work each on its own models, problems and simulations, even with the same names, get exactly what they '
     'get when they work alone: the same expressions and units, registers, connections, verdicts, results, settings, tables and '
     'reports. Threads which declare in the same model lose none of its equations and objects, and equations without a name '
     'get different names.',
     ['schedules', 'programs'], 'for every interleaving of any two pieces of work (optimizations and plots excepted)',
     'Tests use one thread.',
     ['core/equation.py', 'problem.py', 'model.py', 'solvers.py', 'simulation.py'],
     [('names of equations without name', 'core/equation.py'), ('connections', 'problem.py'), ('solvers', 'solvers.py')],
     'Two threads, 19 programs on objects with the same names, switched at lines, entries and returns of the library by a '
     'controlled scheduler: one switch at every point (at every n-th for long programs and pairs of different programs); '
     'thorough: two switches, with finer steps.')
