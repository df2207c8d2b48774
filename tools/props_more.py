COMPW = ['aviary/subsystems', 'aviary/mission', 'aviary/utils']

prop('C04', 'Each trajectory node is computed from that node alone',
     'For every calculation component that works on the nodes of a trajectory, the outputs at one node depend only on the inputs at that node and on the '
     'inputs common to all nodes: neither the values at other nodes, nor the position of the node, nor the number of nodes changes them. '
     'The components that accumulate distance or time along the nodes by purpose are excepted.',
     [INP, CFG], 'all nodes, node counts and input values of all components instantiated per node',
     'Tests feed the same value to every node or use one node count; a value leaking from the first node into the others needs distinct values per node.',
     COMPW,
     [('compute of components with a node count option', 'aviary/mission/*/ode, aviary/subsystems/aerodynamics, propulsion, atmosphere'), ('declared rows and cols per node', 'setup of the same classes')],
     VG + '; one graph per node position and count under renamed inputs, compared for equality',
     VGNOTE % 'the graph of one node is built at several positions and node counts; a foreign node value or the position reaching the result is reported.')

prop('C05', 'Complex-step differentiated components propagate the step exactly',
     'For every calculation component whose derivatives are declared to be obtained by complex step, every operation between an input and an output carries the complex part of '
     'the input through: nothing drops it (a real cast, an absolute value, a real-typed array, a sign) where the output really depends on that input. '
     'The derivative that the complex step yields is therefore the true derivative.',
     [INP, CFG], 'all inputs and option configurations of all components differentiated by complex step',
     'Tests compare complex step against itself or do not differentiate; a dropped imaginary part gives a silently zero derivative.',
     COMPW,
     [("declare_partials(method='cs')", 'aviary/mission/*, aviary/subsystems/*'), ('dtype handling and abs in compute', 'compute of the same classes')],
     VG + '; taint of the imaginary part through non-analytic operations, against the differentiated graph',
     VGNOTE % 'operations that lose the imaginary part block the propagation; an output entry whose derivative is nonzero but blocked is reported.')

prop('C06', 'A mass scaler scales exactly the mass it belongs to',
     'For every component mass that has a scaling factor, the computed mass is proportional to its factor: doubling the factor doubles that mass and a factor of zero removes it, '
     'on every branch of the estimation. '
     'Engine mass, which scales to a reference engine, and furnishing mass, whose scaler leaves some terms out, are excepted.',
     [INP, CFG], 'all inputs and option configurations of all mass components with a scaler',
     'Unit tests leave nearly all scalers at one.',
     ['aviary/subsystems/mass'],
     [('<mass> and <mass>_scaler pairs', 'aviary/subsystems/mass/flops_based, gasp_based')],
     VG + '; Euler relation (homogeneity of degree one) of the differentiated graph',
     VGNOTE % 'the derivative of the mass by its scaler, times the scaler, must have the value number of the mass itself.')

prop('C07', 'The order in which engine models are listed does not matter',
     'When an aircraft has several engine models, listing them in another order, with all their data, leaves every total unchanged and exchanges the results of the single models accordingly. '
     'No calculation singles out the first or last model, or pairs the data of one model with the count of another.',
     [INP, CFG], 'all orders of the engine models, all data of the models',
     'Nearly all tests and all example aircraft have one engine model; the few with two have one fixed order.',
     ['aviary/subsystems'],
     [('num_engines and per-model arrays', 'aviary/subsystems/mass, geometry, propulsion, aerodynamics')],
     VG + '; graphs under a permutation of the engine models compared for equality',
     VGNOTE % 'the graphs for three models in two orders, with renamed inputs and options, are compared entry by entry.')

prop('C08', 'Verbosity changes what is printed, never what is computed',
     'The verbosity setting only affects what is printed, warned about or written to report files. '
     'It never changes a computed value, the problem that is set up, which errors are raised, or which inputs are accepted, at any of its levels.',
     [CFG, INP], 'all verbosity levels, all code paths controlled by the level',
     'Tests run at one level, mostly silent; an effect guarded by another level never executes.',
     ['aviary'],
     [('verbosity arguments, settings and guards', 'aviary/core, aviary/utils, aviary/subsystems, aviary/mission')],
     'interprocedural information-flow analysis (non-interference): explicit and implicit flows of the level to state, exceptions and effects',
     'Sound up to calls that cannot be resolved, which count as effects when named like a mutator; prints, warnings, report and recorder settings are the allowed sinks.')

prop('C09', 'Every reference resolves and every call fits what it calls',
     'Every module, name, attribute, enumeration member, option and hierarchical variable name that the program refers to exists, on every code path. '
     'Every call passes arguments that the function, method or constructor it reaches accepts, and every subsystem builder accepts the calls of the builder interface. '
     'No local variable is read on a path that has not assigned it.',
     [CFG, PROG], 'all statements of all shipped modules, whatever option, error or input leads to them',
     'About a quarter of the statements never execute in the tests; a wrong name there fails only when a user first gets there.',
     ['aviary'],
     [('names, imports, attributes and calls', 'every module of aviary outside the tests'), ('builder interface', 'aviary/subsystems/subsystem_builder.py and its subclasses'),
      ('variable hierarchy and options', 'aviary/variable_info, declare/add_aviary_option calls')],
     'whole-program name resolution, member lookup and argument binding over the syntax trees of the project and of the installed OpenMDAO and dymos; definite assignment dataflow',
     'Sound for what resolves; an attribute of a value whose class is not evident only has to exist in some class. Optional third-party packages are not looked into.')

prop('C10', 'Every calculation component computes all it declares from what it declares',
     'Evaluating a calculation component, in any configuration of its options and at any valid input, gives a value to every output it declares and uses only inputs, options and '
     'derivative entries that it declared. It never fails on a missing or unassigned quantity of its own.',
     [CFG, INP], 'all option configurations and input regions of all component classes',
     'Unit tests evaluate most components in one or two of their configurations.',
     COMPW,
     [('setup, compute, compute_partials of every component class', 'aviary/subsystems, aviary/mission, aviary/utils')],
     VG + '; definedness: declared versus accessed quantities, feasibility of the condition under which a name stays unassigned',
     VGNOTE % 'accesses to undeclared quantities, reads of unassigned names and outputs left untouched are reported when their condition is feasible.')

prop('C15', 'A problem that the program detects is reported',
     'When the program detects a problem, in the input, the data files or the results, the error or warning for it reaches the user with its message filled in. '
     'It is not created and dropped, not caught and forgotten, not downgraded to silence, and not placed behind a condition that cannot hold. '
     'Whatever the documentation of a function says it raises, it can raise.',
     [INP, CFG], 'all statements that detect and report problems, all call paths to handlers',
     'Nearly half of the error reports never execute in the tests; an error that is created but not raised looks tested and reviewed.',
     ['aviary'],
     [('raise and warn statements, exception handlers', 'every module of aviary outside the tests')],
     'syntax-tree rules with resolved exception classes; interprocedural exception flow over the call graph (which raised errors reach which handlers); '
     'reference table of the errors and warnings each function reports',
     'Which problems there are to detect is taken from the code as it is, by a committed table; whether a condition is the right one is not decided, only that it can hold.')

prop('C13', "Using the library changes neither the user's data nor the library's own",
     'Objects that a user passes to the library (options, phase descriptions, data tables, lists) come back as they were given, unless the function is documented to complete them in place. '
     'The library does not change its own shared objects (metadata, default argument values, class attributes, module-level tables) while it is used, nor the objects that a subsystem builder or an option holds. '
     'Hence doing something a second time, or after something else, gives the same result as doing it first.',
     [HIST, PROG], 'all sequences of uses of the public functions and classes, all objects shared between them',
     'Tests start from fresh objects in a fresh state; a change to a shared object shows only in a later, unrelated use.',
     ['aviary'],
     [('public interface', 'aviary/api.py and what it exports'), ('subsystem, engine and phase builders', 'aviary/subsystems, aviary/mission'), ('data containers and metadata', 'aviary/utils, aviary/variable_info')],
     'interprocedural alias and effect analysis over all functions to a fixpoint: every store and in-place method against the objects it may reach, with what outlives a call as roots',
     'May-alias information with three levels of containment; values of libraries outside the program are not followed, and methods on objects of unknown class are resolved by name.')

prop('C16', 'Subsystems are wired so that every quantity reaches where it is used',
     'In every model the program assembles from its subsystems, each computed quantity reaches every subsystem that uses it, each quantity has one source, and each input that matters can be '
     'set from outside or is computed inside. Connections and promotions refer to variables that exist and have the same physical dimension. A quantity is computed before it is used, unless '
     'a solver iterates over the parts involved.',
     [CFG, PROG], 'all assemblies of subsystems: analysis groups, flight models and engine systems under all structural options',
     'Tests build each group in one or two configurations; a missing or misplaced link leaves a default value in the calculation and nothing fails.',
     ['aviary/subsystems', 'aviary/mission'],
     [('setup and configure of every group, promotes and connect calls', 'aviary/subsystems, aviary/mission'), ('flight models', 'aviary/mission/*/ode')],
     'abstract interpretation of the construction code (setup, configure, builders) of every group for its structural options; resolution of promotions, connections and execution order; '
     'reachability and unit rules on the resulting data-flow graph',
     'Exact for the models enumerated: base options, each structural option alone and in context, random combinations; engine models are stand-ins with the documented interface.')

prop('C17', 'A total counts each of its parts exactly once',
     'Every total the program computes by summation (masses of the aircraft and of its fuel, wetted areas, thrust, fuel flow, electric power) counts each of its parts exactly once, a part of an engine once per '
     'engine of that model, and deductions with the opposite sign. No part is left out, counted twice or weighted otherwise, for any combination of options, aircraft type and engine models. '
     'A total that is the sum of its parts contains nothing else.',
     [CFG, INP], 'all structural options and all values of the quantities summed',
     'Tests compare totals for a few aircraft on which many parts are zero, all engines are alike and the options are at their defaults; a part left out or miscounted elsewhere changes nothing there.',
     ['aviary/subsystems', 'aviary/mission'],
     [('summation components', 'aviary/subsystems/mass/*/mass_summation.py'), ('totals over engines', 'aviary/subsystems/propulsion'), ('areas and lengths', 'aviary/subsystems/geometry')],
     'symbolic differentiation of the value graph of every component (constant entries are links of sums), composed along the resolved wiring of every group; comparison with a recorded composition of each total',
     'Constancy of a derivative is decided by random interpretation on 400 lanes; scalers one, margins zero; the recorded composition was reviewed by hand.')
