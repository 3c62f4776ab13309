"""Writes properties.jsonl and MANIFEST.json from one place (run by hand after editing; the outputs are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = 'src/niapy/algorithms'
PBT = 'property-based testing (Hypothesis, shrinking, replay)'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state or []],
                               observe_at=observe, hook_needed=None),
                  technique=technique, note=note))


RUNTXT = 'every exported algorithm class, every parameter setting inside its documented domain, every problem (dimension, box, objective), budget, repair function and seed'
RUNWHY = 'The tests run each algorithm with one or two parameter settings on two fixed problems and compare evaluation counts; they never log the individual calls of the objective under other settings, boxes or budgets.'
RUNNOTE = 'Random exploration with a complete oracle per run; small dimensions (1-8), populations and budgets (up to a few hundred evaluations, 800-2500 in the long targets). Assumes the generated parameter domains of nv/algs.py are the documented ones.'

prop('C01', 'A run respects its budgets, uses them, and ends',
     'For every algorithm, setting, problem and budget, a run ends without an error, the objective is never called more often than the evaluation budget allows nor after the iteration limit or the target value was reached, and the task counts exactly the calls that happened. A run limited only by evaluations uses all of them, a run limited only by iterations performs exactly that many. A stopped task evaluates nothing more.',
     ['inputs', 'configurations'], RUNTXT, RUNWHY,
     [ALL + '/algorithm.py', 'src/niapy/task.py', ALL + '/basic', ALL + '/modified', ALL + '/other'],
     [('budget check before each evaluation', 'src/niapy/task.py Task.eval / Task.stopping_condition'), ('main loop', ALL + '/algorithm.py Algorithm.run'), ('inner loops that evaluate a variable number of times', ALL + '/other/mts.py, cro.py, bfo.py, fss.py, gso.py')],
     ['every call of a recording problem', 'Task.evals', 'Task.iters', 'Task.stopping_condition'],
     PBT + ': random runs, budget oracle recomputed from the log of objective calls', RUNNOTE + ' Termination is judged by a CPU limit of 30 s per run (typical: below 0.1 s).')

prop('C02', 'The record a task keeps equals the history of its evaluations',
     'After any sequence of evaluations, iterations and queries, a task reports the number of calls and iterations that really happened, the best value seen (in the sense of the optimisation), and convergence data per iteration and per evaluation that equal the running best of the history. An evaluated value is returned with the sign of the optimisation sense, an exhausted task returns infinity without calling the objective, and each improvement (only an improvement) is logged once when logging is enabled.',
     ['histories', 'inputs'], 'every sequence of task operations, every sequence of objective values (ties, infinities, NaN), both senses, all stopping criteria',
     'The tests replay two fixed sequences of evaluations; ties, infinities, maximisation, target values and interleaved queries are not reached.',
     ['src/niapy/task.py'], [('counting and improvement test', 'src/niapy/task.py Task.eval'), ('convergence reconstruction', 'src/niapy/task.py Task.convergence_data'), ('stopping test', 'src/niapy/task.py Task.stopping_condition')],
     ['Task.evals', 'Task.iters', 'Task.x_f', 'Task.convergence_data', 'Task.plot_convergence', 'log records'],
     'stateful property-based testing against a reference model of the task', 'Random histories up to 60 operations compared after each operation with an independent model, plus the same record of real runs of all algorithms.',
     [('n_evals, fitness_evals, fitness_iters', 'improvement history', 'src/niapy/task.py')])

prop('C03', 'Only complete, finite, feasible points are evaluated',
     'Every vector an algorithm hands to the objective has the dimension of the problem, finite components, and lies inside the closed box of the problem, whatever repair function, parameters, box or budget is used. The run leaves the bounds of the problem and of the task unchanged.',
     ['inputs', 'configurations'], RUNTXT, 'The tests use one symmetric box with the default repair function and check only the final solution.',
     [ALL, 'src/niapy/util/repair.py', 'src/niapy/task.py'], [('repair before evaluation', 'Task.repair calls in every ' + ALL + ' module'), ('repair functions', 'src/niapy/util/repair.py'), ('operators that build points', ALL + '/other/mts.py, modified/*.py')],
     ['arguments of every call of the objective', 'Problem.lower/upper', 'Task.lower/upper'], PBT + ': random runs, every evaluated point compared with the box', RUNNOTE)

prop('C04', 'A run returns the best point it evaluated, with its true value',
     'The solution a run returns was evaluated during the run, lies in the box, has the returned value under the objective (in the sense the user asked for), and no other evaluated point is better. The best value kept by the task is the same.',
     ['inputs', 'configurations'], RUNTXT, 'The tests only check that the returned value is not infinite and that re-evaluating the returned point gives it; points lost between iterations are invisible to them.',
     [ALL, 'src/niapy/task.py'], [('best tracking', ALL + '/algorithm.py Algorithm.get_best'), ('best tracking in operators', ALL + '/basic, other, modified run_iteration'), ('sign handling', ALL + '/algorithm.py Algorithm.run')],
     ['return value of Algorithm.run', 'log of evaluated points', 'Task.x_f'], PBT + ': random runs, argmin over the log of evaluations as oracle', RUNNOTE)

prop('C05', 'Equal seeds give equal runs',
     'Two runs of equally constructed algorithms with equal seeds on equal tasks evaluate bit-identical sequences of points and return identical results, whatever happened before in the process and whatever the state of the global random generators. For settings that use randomness, different seeds give different runs.',
     ['inputs', 'configurations', 'histories'], RUNTXT + '; every history of the process before the run', 'The tests compare the final fitness of two instances for one setting, on one budget, and never disturb the global generators or run other algorithms in between.',
     [ALL, 'src/niapy/util/repair.py', 'src/niapy/util/random.py'], [('own generator', ALL + '/algorithm.py Algorithm.rng'), ('generator handed to repairs and operators', 'Task.repair(..., rng=...), Individual(rng=...)')],
     ['sequence of evaluated points', 'return value'], PBT + ': metamorphic comparison of repeated runs under disturbed global state', RUNNOTE)

prop('C06', 'Maximising f is exactly minimising -f',
     'For every algorithm and setting, maximising an objective and minimising its negation with the same seed evaluate the same points, take the same number of steps, return the same solution with negated value, and record negated convergence data.',
     ['inputs', 'configurations'], RUNTXT, 'Only two tests maximise at all, on one algorithm.',
     ['src/niapy/task.py', ALL], [('sense as a sign', 'src/niapy/task.py OptimizationType'), ('direct use of objective values', ALL + '/other/mts.py, gsa, ca, abc, kh')],
     ['sequence of evaluated points', 'return value', 'Task.convergence_data', 'best values reported to callbacks'], PBT + ': metamorphic relation between dual runs', RUNNOTE)

prop('C07', 'Callbacks see the run as documented and do not disturb it',
     'Callbacks are called once before the run, before and after each iteration in registration order, and once after it, with the population, fitness and best solution of that moment; the state seen after one iteration is the state seen before the next. Any number of callbacks, also of one class, may be registered, and a callback serves exactly the algorithms it was given to. Registering passive callbacks does not change the run, and a run equals the documented loop of initialise / iterate / advance the task driven by hand.',
     ['inputs', 'configurations', 'histories'], RUNTXT, 'The tests count callback invocations for one algorithm; the data handed over and the equality of the driven runs are untested.',
     [ALL + '/algorithm.py', 'src/niapy/callbacks.py'], [('loop', ALL + '/algorithm.py Algorithm.run'), ('dispatch', 'src/niapy/callbacks.py CallbackList')],
     ['callback invocations and their arguments', 'sequence of evaluated points'], PBT + ': event-sequence oracle and differential comparison of three ways to drive one run', RUNNOTE)

prop('C08', 'The state carried between iterations is true',
     'Before and after each iteration, the best solution handed on is the best point evaluated so far and never gets worse; population and fitness have matching lengths, members lie in the box, and the fitness attached to a member is the objective value of that member (for the algorithms whose fitness means that); points that the state remembers next to a value (personal bests, leaders, former positions) were evaluated and have that value.',
     ['inputs', 'configurations'], RUNTXT, 'No test inspects the intermediate state of a run.',
     [ALL], [('population updates', ALL + '/basic, other, modified run_iteration'), ('individual evaluation', ALL + '/algorithm.py Individual.evaluate')],
     ['arguments of before_iteration / after_iteration callbacks', 'log of evaluated points'], PBT + ': invariant over the recorded history of each run', RUNNOTE)

prop('C09', 'Bound repair returns a feasible vector and keeps what is feasible',
     'Every repair function maps any finite vector to one inside the box, leaves components that were inside untouched, treats components independently, is idempotent, does not change the bounds, and computes the documented rule (nearest bound, opposite bound, reflection, wrap-around, uniform redraw from the given generator).',
     ['inputs'], 'every box and every finite vector, every repair function', 'The tests repair three fixed vectors in one box with three of the functions.',
     ['src/niapy/util/repair.py', 'src/niapy/task.py'], [('limit, limit_inverse, wang, rand, reflect', 'src/niapy/util/repair.py'), ('Task.repair, Task.is_feasible', 'src/niapy/task.py')],
     ['return values of the repair functions', 'Task.repair', 'Task.is_feasible'], PBT + ': componentwise reference rules', 'Boxes of 1-12 dimensions, vectors inside, on, just beyond and far beyond the bounds.')

prop('C10', 'Benchmark problems compute their published functions',
     'At every point of its box (the default one or bounds the user chose), in every supported dimension and for all its shape parameters, each benchmark problem returns the value of its published definition.',
     ['inputs', 'configurations'], 'every benchmark class, dimension, shape parameter and point', 'The tests evaluate most problems at the optimum only, or at one or two points in two dimensions, where index, sign and scaling errors vanish.',
     ['src/niapy/problems'], [('_evaluate of each problem', 'src/niapy/problems/*.py')], ['Problem.evaluate'],
     PBT + ': differential testing against independent scalar implementations', 'Numeric agreement within 1e-9 relative plus argument sensitivity; the reference definitions are the documented/published ones (HappyCat deviation listed as known finding).')

prop('C11', 'Published optima are attained and not beaten',
     'Each benchmark problem has its published default box, takes its published optimum value at its published optimum for every dimension, and takes no better value anywhere in the box.',
     ['inputs', 'configurations'], 'every benchmark class, every dimension, every point of the box', 'The tests check optima in dimension 2 or 10 only and never compare other points with them.',
     ['src/niapy/problems'], [('_evaluate and default bounds', 'src/niapy/problems/*.py')], ['Problem.evaluate', 'Problem.lower', 'Problem.upper'],
     PBT + ': sampled lower-bound invariant, incl. multi-scale samples around the optimum', 'Lower-bound part is a search for counterexamples, not a proof.')

prop('C12', 'Problems are pure functions of their argument with the bounds asked for',
     'A problem built for a dimension and bounds (scalar or sequence, shorter or longer than the dimension) has exactly that dimension and bounds, its value depends only on the vector, not on earlier evaluations, other instances or the kind of sequence, evaluating never modifies the vector, and a vector of another length is rejected.',
     ['inputs', 'configurations', 'histories'], 'every construction and every interleaving of evaluations over several instances', 'The tests build each problem once with default bounds and evaluate it once.',
     ['src/niapy/problems/problem.py', 'src/niapy/util/array.py', 'src/niapy/problems'], [('bound expansion', 'src/niapy/util/array.py full_array'), ('evaluate', 'src/niapy/problems/problem.py Problem.evaluate')],
     ['Problem.dimension/lower/upper', 'Problem.evaluate'], 'stateful ' + PBT + ': fresh-instance oracle', 'Sequences of evaluations over two instances.')

prop('C13', 'Names create what they say',
     'Asking for an algorithm by its class name, or for a problem by its name in any letter case, directly or through a task, gives a new object of exactly the named kind configured with the given arguments; unknown names are rejected with an error.',
     ['inputs', 'configurations'], 'every exported algorithm, every problem name, every casing, every argument', 'The tests ask for a handful of names with default arguments.',
     ['src/niapy/util/factory.py', 'src/niapy/task.py'], [('name tables', 'src/niapy/util/factory.py'), ('name in Task', 'src/niapy/task.py Task.__init__')],
     ['get_algorithm', 'get_problem', 'Task(problem=name)'], PBT + ': all names enumerated, then random request sequences', 'Complete over names; arguments sampled.')

prop('C14', 'The runner reports every run it was asked for, and exports what it returns',
     'For any list of algorithms (names or instances) and problems (names or instances) and any number of runs, the runner returns for each algorithm and problem exactly that many results in order, each being what an independent run of that algorithm on a fresh task with the requested dimension and budget gives. The runs of an algorithm given by its name are independent of each other. The exported pickle, JSON or Excel file contains these results, and an unsupported export kind is rejected with an error.',
     ['inputs', 'configurations', 'histories'], 'every combination of algorithms, problems, runs, dimension, budget, export kind and repeated use of one runner', 'The tests run one fixed list with seven evaluations and check only the truthiness of the result.',
     ['src/niapy/runner.py'], [('run', 'src/niapy/runner.py Runner.run'), ('exports', 'src/niapy/runner.py Runner.__export_to_*')], ['return value of Runner.run', 'files below ./export', 'objective calls'],
     PBT + ': differential comparison with hand-driven runs, round trip of the export files', 'Runs in a scratch directory. JSON carries 10 decimal digits (documented pandas default).')

prop('C15', 'Parameters mean the same however they are given',
     'For every algorithm, constructing it with parameters and constructing it plainly and then setting the same parameters gives the same run for equal seeds, and the parameters it reports are the ones given.',
     ['inputs', 'configurations'], 'every exported algorithm and every subset and value of its documented parameters', 'The tests check reported parameters for few algorithms and never that setting them takes effect.',
     [ALL], [('__init__, set_parameters, get_parameters of each class', ALL + '/**/*.py')], ['get_parameters', 'sequence of evaluated points'],
     PBT + ': metamorphic comparison of two ways of configuring', RUNNOTE)

prop('C16', 'Runs are isolated from each other',
     'A second run of one instance behaves like the run of a fresh instance whose generator is in the same state, two instances running interleaved in parallel behave as each does alone (also when they share a problem), and default objects are not shared between instances.',
     ['histories', 'schedules', 'configurations'], 'every algorithm and setting, every sequence of runs of one instance, every interleaving of two runs', 'The tests run each instance once, in one thread.',
     [ALL, 'src/niapy/task.py'], [('state kept on the instance between runs', ALL + '/**/*.py init_population'), ('module-level or class-level state', ALL + '/**/*.py')], ['sequence of evaluated points', 'return value'],
     'stateful ' + PBT + ' with harness-owned lock-step thread schedules', 'Schedules switch at objective evaluations; instruction-level interleavings are left to the interpreter.')

prop('C17', 'Faults of the objective or a callback surface and stop the run',
     'When the objective or a callback raises at any call, a run in the main thread raises that same exception and a run in another thread or process returns no solution and reports itself as failed; the objective is not called again, and the task still counts what happened. A run without a fault reports itself as good.',
     ['fault_sequences', 'crash_points', 'configurations'], 'every algorithm and setting, every position of the fault, every exception type, main thread / worker thread / child process', 'One test lets one objective fail for one algorithm at its first call.',
     [ALL + '/algorithm.py'], [('exception handling', ALL + '/algorithm.py Algorithm.run, bad_run')], ['exception raised by run', 'return value', 'bad_run', 'objective calls'],
     'fault injection over generated runs (' + PBT + ')', 'One fault per run; position drawn over the whole run.')

prop('C18', 'Command line arguments are parsed into the settings they denote',
     'For every combination, order and spelling of the documented command line options, the parser returns the given values with the documented types and the documented defaults for the others; the dictionary form and the argument list form agree, and algorithm lists, problem lists and optimisation sense are translated as documented.',
     ['inputs', 'configurations'], 'every list of documented options', 'The tests parse each option once in isolation.',
     ['src/niapy/util/argparser.py'], [('parser', 'src/niapy/util/argparser.py get_argparser, get_args, get_args_dict')], ['get_args', 'get_args_dict'],
     PBT + ': reference model of the options', 'Documented options only.')

prop('C19', 'The numeric helpers compute what they document',
     'Broadcasting a scalar or sequence to a dimension, distances, Levy steps, object arrays, and the random draws of an algorithm (uniform, normal, integers with exclusion) return the documented shape, range and values for every input, drawing only from the given generator.',
     ['inputs'], 'every argument of the helpers', 'The tests call each helper with one or two arguments.',
     ['src/niapy/util', ALL + '/algorithm.py'], [('full_array', 'src/niapy/util/array.py'), ('euclidean', 'src/niapy/util/distances.py'), ('levy_flight', 'src/niapy/util/random.py'), ('random, uniform, normal, standard_normal, integers', ALL + '/algorithm.py')],
     ['return values'], PBT + ': reference models and distribution bounds with fixed seeds', 'Statistical statements use wide deterministic tolerances (about 6 standard errors or more).')

prop('C20', 'Differential evolution builds the vectors its strategies document',
     'Each strategy returns a vector of the dimension of the problem that takes at least one component from the documented mutant (a base member plus weighted differences of distinct other members, the best or the current one) and every other component either from it or from the current member, according to the crossover probability. The inputs are not modified.',
     ['inputs'], 'every population, index, weight, probability and generator state', 'The tests only check that two calls with equal generators agree.',
     [ALL + '/basic/de.py', ALL + '/modified/shade.py'], [('cross_rand1, cross_best1, cross_rand2, cross_best2, cross_curr2rand1, cross_curr2best1, multi_mutations', ALL + '/basic/de.py'), ('cross_curr2pbest1', ALL + '/modified/shade.py')],
     ['return value of the strategies'], PBT + ': existential oracle over all admissible donor tuples', 'Populations up to 9 members so that all donor tuples can be enumerated.')

prop('C21', 'Genetic operators select, cross and mutate as documented',
     'Tournament and roulette selection return members of the population (the fittest of the tournament; never one outside), crossovers take each gene from the parents by the documented rule, and mutations change only the genes the mutation rate allows, to values inside the box. The operators do not modify their inputs. Each new member of the genetic algorithm is the mutated crossover of selected members.',
     ['inputs'], 'every population, fitness vector, index, rate and generator state', 'The operators are only exercised inside full runs.',
     [ALL + '/basic/ga.py', ALL + '/other/aso.py'], [('selection, crossover, mutation functions', ALL + '/basic/ga.py'), ('elitism, sequential, crossover', ALL + '/other/aso.py')], ['return values of the operators'],
     PBT + ': membership and reference-rule oracles', 'Statistical statements use wide deterministic tolerances.')

prop('C22', 'User-supplied populations and custom individuals are used as given',
     'For the algorithms that take their first population from the initialisation function, a run that is given one starts from exactly the population and fitness it returns, in the size asked for; the differential evolution, genetic, monkey king and lion families keep using a custom individual type they are given; without an initialisation function, the initial population is drawn uniformly from the box.',
     ['inputs', 'configurations'], 'every algorithm, population size, initial population and individual type', 'One test passes an initialisation function to one algorithm.',
     [ALL + '/algorithm.py', ALL], [('init_population', ALL + '/algorithm.py Algorithm.init_population'), ('default_numpy_init, default_individual_init', ALL + '/algorithm.py')], ['first before_iteration callback', 'first evaluated points'],
     PBT + ': the initial state is compared with what the user supplied', RUNNOTE)

prop('C23', 'An individual carries its own solution and the value of that solution',
     'A generated individual lies in the box. Evaluating an individual repairs its vector and stores the value the task gives for the repaired vector; an individual that was not evaluated has the value infinity. A copy equals its original in every attribute and shares nothing with it: changing one never changes the other. Comparing, indexing and assignment act on the vector.',
     ['inputs', 'histories'], 'every sequence of operations on individuals', 'The tests build three individuals.',
     [ALL + '/algorithm.py', ALL + '/basic/de.py', ALL + '/basic/es.py', ALL + '/other/mts.py'], [('Individual', ALL + '/algorithm.py Individual')], ['Individual.x', 'Individual.f', '==, [], len, str'],
     'stateful ' + PBT + ': reference model', 'Histories up to 30 operations over up to 6 individuals.')

prop('C24', 'Self-adapted parameters stay in their documented ranges',
     'Parameters that an algorithm adapts during the run (mutation weights, crossover rates and their memories, archives, loudness and pulse rate, temperature, step sizes, bandwidths, amplitudes, velocities, neighbourhood ranges, ages, lifetimes, trial counters and population sizes) stay inside their documented ranges and change only as documented: by their schedule over evaluations or iterations, or after the successes and failures that really happened; where a new value is drawn (success-history weights and rates, jDE, self-adaptive bats) it has the documented distribution.',
     ['inputs', 'configurations', 'histories'], 'every adaptive algorithm, its range parameters, problem, budget, seed and iteration', 'No test looks at adapted parameters during a run; after a wrong update a run still ends and returns a plausible value.',
     [ALL + '/modified', ALL + '/basic', ALL + '/other/sa.py'], [('adaptive evolution of F and CR', ALL + '/modified/jde.py'), ('success-history memories, archive and linear population reduction', ALL + '/modified/shade.py, ilshade.py'), ('bat parameters', ALL + '/modified/saba.py'), ('population halving, ageing', ALL + '/basic/de.py'), ('1/5 success rule', ALL + '/basic/es.py'), ('velocity limits', ALL + '/basic/pso.py'), ('trial counters', ALL + '/basic/abc.py'), ('amplitudes', ALL + '/basic/fwa.py'), ('temperature', ALL + '/other/sa.py')],
     ['populations and parameters handed to callbacks before and after each iteration'], PBT + ': reference schedules recomputed from the recorded history; drawn values compared with a reference sampler', RUNNOTE)

prop('C25', 'Local searches report what they evaluated and are graded by it',
     'Each local search of the multiple trajectory search returns a feasible solution with its true value, a best pair that is the best of the incoming best and everything it evaluated, never gets worse than its start, and a grade that counts the documented bonuses for the improvements that happened. MTS and its DE hybrids then apply the best graded search to each enabled solution and keep the num_enabled best graded solutions enabled.',
     ['inputs', 'configurations'], 'every local search, starting point, best, search range, bonuses, problem and seed', 'The tests run the searches only inside complete runs.',
     [ALL + '/other/mts.py'], [('mts_ls1, mts_ls1v1, mts_ls2, mts_ls3, mts_ls3v1', ALL + '/other/mts.py')], ['return values', 'log of evaluated points'],
     PBT + ': oracle recomputed from the log of evaluations', 'Dimensions 1-8.')


prop('C26', 'Greedy and elitist selection keeps the better solution',
     'After each iteration every survivor is the one its selection rule prescribes: with one-to-one selection (differential evolution family, flower pollination, cuckoo search, fireworks slots, trajectory search) each member is the better of itself and its own trials; plus strategies keep the best of parents and offspring, comma strategies the best offspring, harmony search and monkey kings replace the worst, bats never accept a worse solution, annealing accepts every better one and a worse one only as its temperature allows, personal bests and leading wolves are the best visited so far with their true values, and elitist algorithms never lose their best member.',
     ['inputs', 'histories', 'configurations'], 'every algorithm with greedy or elitist selection, every parameter setting, problem, budget, seed and iteration', 'The tests look at the final best value only; a member that is lost, kept or overwritten wrongly leaves that value plausible.',
     [ALL + '/basic', ALL + '/modified', ALL + '/other'], [('selection of the differential evolution family', ALL + '/basic/de.py evolve, selection; modified/jde.py, shade.py'), ('survivors of evolution strategies', ALL + '/basic/es.py'), ('personal bests', ALL + '/basic/pso.py, other/aso.py'), ('replacement of the worst', ALL + '/basic/hs.py, mke.py'), ('acceptance', ALL + '/basic/ba.py, modified/saba.py, other/sa.py')],
     ['fitness of the population handed to callbacks before and after each iteration', 'objective values of the iteration', 'personal bests'], PBT + ': survivors recomputed from the parents and the logged objective values', RUNNOTE)


prop('C28', 'A larger budget only continues the run',
     'A run with a smaller budget evaluates exactly the first points of the run with a larger budget and the same seed, and the larger budget never gives a worse result. A run with a target value makes the same evaluations as the run without it up to and including the first one that reaches the target. Logging changes nothing. (Algorithms whose documented schedule refers to the total number of evaluations, or iterations, are compared under the other kinds of limit only.)',
     ['inputs', 'configurations', 'histories'], 'every algorithm, parameter setting, problem, seed and pair of budgets', 'The tests never compare runs of different length.',
     [ALL, 'src/niapy/task.py'], [('main loop', ALL + '/algorithm.py Algorithm.run'), ('stopping test', 'src/niapy/task.py Task.stopping_condition, Task.eval'), ('run_iteration', ALL + '/basic, other, modified')],
     ['sequence of evaluated points', 'return value'], PBT + ': metamorphic comparison of a shorter and a longer run', RUNNOTE)

prop('C29', 'The unit of the objective does not matter',
     'Multiplying the objective by a positive power of two changes neither the points an algorithm evaluates nor the number of its evaluations and iterations, and multiplies its result, unless its documented rules use absolute objective values (bee colony, bacterial foraging, clonal selection, anarchic society, fireworks, glowworm, krill herd, annealing, trajectory search with its third local search). Optimizers that only compare objective values (differential evolution and its jDE and multi-strategy variants, particle swarms, bats, evolution strategies, harmony search, cuckoo, flower, grey wolf, forest, firefly, hawks, monkey king, Nelder-Mead and the like) run unchanged under every strictly increasing transformation of the objective.',
     ['inputs', 'configurations'], RUNTXT + '; every power of two, an uneven increasing map', 'The tests use one scale of the objective; a constant that only suits that scale goes unnoticed.',
     [ALL], [('selection and comparison', ALL + '/basic, modified, other run_iteration'), ('normalised weights', ALL + '/modified/shade.py, basic/gsa.py, basic/de.py, basic/fss.py, basic/hho.py')],
     ['sequence of evaluated points', 'return value'], PBT + ': metamorphic comparison under transformed objectives', RUNNOTE)

prop('C30', 'The units of the variables do not matter',
     'For algorithms without absolute lengths among their parameters (differential evolution and its variants, genetic algorithm, bee colony, cuckoo, flower, grey wolf, forest, camel, monkey king, moth, sine cosine, clonal selection, hybrid bats, bare bones fireworks, Nelder-Mead, particle swarms without velocity limits), measuring each variable in its own unit (a power of two) changes nothing but the unit of the evaluated points; mantis search and the mutated particle swarms behave so when all variables share the unit.',
     ['inputs', 'configurations'], RUNTXT + '; every vector of powers of two', 'The tests use one symmetric box of one size.',
     [ALL, 'src/niapy/util/repair.py', 'src/niapy/task.py'], [('steps relative to the box', ALL + '/basic, modified, other run_iteration'), ('initialisation', ALL + '/algorithm.py default_numpy_init'), ('repair', 'src/niapy/util/repair.py')],
     ['sequence of evaluated points', 'return value'], PBT + ': metamorphic comparison under rescaled boxes', RUNNOTE)

prop('C31', 'One step has the distribution its update rule gives',
     'The points an algorithm evaluates in the iterations that follow its initial population, taken up at any stage of the budget, have the joint distribution that its documented update rule gives for the same parameters, initial population, box, objective and repair: which members are combined, with which weights, which random quantities are drawn per component and which per member, what is accepted, how step sizes develop. Covered: every algorithm of the library. Where an implementation deliberately or recognisably departs from its publication (in-place trials of jDE, acceptance in the self-adaptive bats, monarch butterflies, sine cosine, moth flame, krill herd, coral reefs), the rule is the one the current implementation has. The order in which random numbers are drawn is free.',
     ['inputs', 'configurations', 'seeds'], RUNTXT + ', as a distribution over seeds', 'No test says anything about where an algorithm moves: tests check that it runs, stays in the box and repeats for a seed.',
     [ALL, 'src/niapy/util'], [('run_iteration, operators', ALL + '/basic, modified, other')],
     ['sequence of evaluated points, over thousands of seeds'], PBT + ': differential testing in distribution against reference models of the update rules (two-sample Kolmogorov-Smirnov, confirmed on fresh runs)',
     'Runs of a few iterations with populations of 1-8 (80 for the parameter-free bat algorithm) in 2-3 dimensions; deviations too small for 3000 runs are not seen. A report needs p < 1e-9 on fresh runs.')


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, 'nv/props/%s.py' % p['id'].lower()))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}) + '\n')
    m = dict(version=1, setup_cmd='/opt/venv/bin/python check.py --selftest',
             checks=[dict(property=p['id'], quick_cmd='/opt/venv/bin/python check.py %s quick' % p['id'], thorough_cmd='/opt/venv/bin/python check.py %s thorough' % p['id'],
                          evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['note']) for p in have],
             not_applicable=[dict(property=p['id'], reason='check not built yet') for p in P if p not in have],
             notes='Nothing is compiled: every check imports niapy from /repo/src as it is at that moment. Replay: /opt/venv/bin/python check.py --replay FILE.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
