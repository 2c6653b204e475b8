#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os

def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=None))

ALG = ["mealpy/bio_based", "mealpy/evolutionary_based", "mealpy/human_based", "mealpy/math_based", "mealpy/physics_based",
       "mealpy/swarm_based", "mealpy/system_based", "mealpy/music_based", "mealpy/game_based", "mealpy/sota_based"]
OPT = "mealpy/optimizer.py"
PR = []
PR.append(P("C01", "Every candidate that is evaluated is feasible",
  "Whatever the algorithm, hyper-parameters, mode and variable types, every candidate solution handed to the objective after the initial population was either freshly generated by the problem's variables, repaired by the problem's own correction after its last modification, or is an unmodified copy of such a solution. Consequently the solution the solver returns lies within the declared variable bounds.",
  ["inputs", "programs", "configurations"], "all ~230 algorithms, all execution modes, all variable types, all random draws",
  "The tests run most algorithms for a few epochs on one box-shaped float problem and look at the length of the returned vector; about 77 algorithm modules are never run, and an unrepaired branch only shows on rare random draws.",
  [OPT, "mealpy/utils/problem.py", "mealpy/utils/space.py"] + ALG,
  [("Optimizer.correct_solution -> amend_solution + Problem.correct_solution", OPT), ("every evolve() repairs positions before get_target/generate_agent", "mealpy/*_based/*.py")],
  [("agent.solution", "encoded position of a candidate", "mealpy/utils/agent.py")], ["arguments of get_target / Agent construction / assignments to .solution"]))
PR.append(P("C02", "A recorded fitness always belongs to the recorded solution",
  "At the end of every epoch, in every execution mode, each member of the population (and therefore the returned best and everything stored in the history) carries the objective value of exactly the solution it holds: never a missing value, and never the value of another or an earlier solution.",
  ["inputs", "programs", "configurations", "histories"], "all algorithms x {single, swarm, thread, process} x all histories of moves",
  "Tests never recompute the objective at the returned solution; modes other than the default are exercised for almost no algorithm, and the two code paths (evaluate at once / evaluate in a batch) diverge by mode.",
  [OPT, "mealpy/utils/agent.py"] + ALG,
  [("single-mode evaluation guarded by mode test + update_target_for_population for the batch modes", OPT), ("Agent.copy / Agent.update", "mealpy/utils/agent.py")],
  [("agent.target", "evaluated objectives/fitness of agent.solution", "mealpy/utils/agent.py"), ("self.pop", "current population", OPT)]))
PR.append(P("C03", "The best solution seen is tracked correctly and never lost",
  "After initialisation and after every epoch, the recorded global best is the better, under the problem's direction, of the previous global best and the best member of the current population, symmetrically for the global worst, and the current best/worst are the extreme members of the current population. The solver returns the last recorded global best, so with either direction the recorded best never gets worse from one epoch to the next.",
  ["histories", "inputs", "programs"], "both directions, all populations, all sequences of epochs, all algorithms",
  "Tests compare two or three hand-made agents under 'min' only; nothing checks the series produced by a run, maximisation, or an algorithm that overwrites the tracked best.",
  [OPT, "mealpy/utils/history.py", "mealpy/utils/agent.py"] + ALG,
  [("update_global_best_agent / after_initialization / solve", OPT), ("get_better_agent, get_sorted_population, get_special_agents", OPT)],
  [("self.g_best, self.g_worst", "best/worst so far", OPT), ("history.list_global_best, list_current_best, list_global_worst, list_current_worst", "per-epoch records", "mealpy/utils/history.py")]))
PR.append(P("C04", "Every comparison of fitness follows the problem's direction",
  "Every place that ranks, selects, accepts or replaces candidates by their fitness honours the problem's min/max direction: each comparison helper orders correctly for both directions (ties aside), and no algorithm applies the same smaller-is-better (or larger-is-better) test to raw fitness in both directions. Maximising f therefore makes the same choices as minimising -f wherever only comparisons are involved.",
  ["inputs", "programs", "configurations"], "both directions; all algorithms; all fitness values",
  "Practically every test minimises; a comparison that forgot the direction gives the same result there and only misleads the search when maximising.",
  [OPT, "mealpy/utils/agent.py"] + ALG,
  [("compare_target / compare_fitness / get_better_agent / get_sorted_population / greedy_selection_population taking minmax", OPT), ("is_better_than / get_better_solution", "mealpy/utils/agent.py")],
  [("problem.minmax", "direction of the problem", "mealpy/utils/problem.py")]))
PR.append(P("C05", "Recorded solutions never change after they were recorded",
  "Once a solution is recorded as global/current best or worst, or belongs to a stored population snapshot, later search steps never alter it: algorithms do not modify in place a solution vector that a candidate or the history may share, nor the recorded candidates themselves. Accessors that hand out best/worst candidates hand out independent copies.",
  ["histories", "programs"], "all algorithms, all later epochs, all aliasing between candidates, copies and history",
  "Sharing is invisible unless a test keeps an early record and compares it after more epochs; none does.",
  [OPT, "mealpy/utils/agent.py", "mealpy/utils/history.py"] + ALG,
  [("Agent.copy, duplicate_pop, get_better_agent/get_special_agents copying", OPT), ("solutions replaced, not mutated", "mealpy/*_based/*.py")],
  [("history lists", "recorded agents", "mealpy/utils/history.py")]))
PR.append(P("C06", "A seed fully determines a run",
  "Two runs with the same seed, problem, algorithm, hyper-parameters and sequential mode make identical random draws and return identical results: every random decision in the library draws from a generator that is re-created from the user's seed at the start of the run, and no decision depends on global random state, time, object identity, hash order or unordered collections of non-integers.",
  ["inputs", "histories", "programs", "configurations"], "all seeds, all algorithms, all variable types, any earlier use of the process",
  "The tests never seed; a draw from an unseeded source is statistically indistinguishable in a single run.",
  [OPT, "mealpy/utils/problem.py", "mealpy/utils/space.py"] + ALG,
  [("check_problem seeds generator, rng and the problem's variables", OPT), ("Problem.set_seed / BaseVar.seed", "mealpy/utils/problem.py")],
  [("self.generator, self.rng", "per-run random sources", OPT), ("BaseVar.generator", "per-variable random source", "mealpy/utils/space.py")]))
PR.append(P("C07", "Solving again starts from a clean state",
  "A second call of the solver on the same optimizer object behaves exactly like the first call on a fresh optimizer built with the same hyper-parameters: everything a run reads was set in that run, by the constructor and never changed since, or by the user. In particular runs never modify hyper-parameters, class-level or module-level state.",
  ["histories", "programs"], "all algorithms; all sequences of solver calls on one object, including through the tuning and multitask utilities",
  "Almost all tests call the solver once per object.",
  [OPT] + ALG,
  [("check_problem resets pop/g_best/g_worst/history; initialize_variables, initialization, before_main_loop set run state", OPT)],
  [("optimizer attributes", "run state vs. hyper-parameters", "mealpy/*_based/*.py")]))
PR.append(P("C08", "Hyper-parameters are validated, stored and reported under their names",
  "For every algorithm, each constructor argument is range-checked before use and a value outside its documented range is rejected, an accepted value is stored under the argument's own name, and the parameters the object reports (and prints) are exactly its constructor arguments with those values. Every default value is itself accepted.",
  ["inputs", "programs"], "all algorithms, all constructor arguments, all values",
  "Tests try a few bad values for some parameters of some algorithms; 77 modules are untested and a swapped or missing check elsewhere goes unseen.",
  ["mealpy/utils/validator.py", OPT] + ALG,
  [("self.x = self.validator.check_*('x', x, bound); self.set_parameters([...])", "mealpy/*_based/*.py"), ("Validator.check_*, is_in_bound", "mealpy/utils/validator.py")],
  [("self.parameters", "reported hyper-parameters", OPT)]))
PR.append(P("C09", "Setting hyper-parameters later equals constructing with them",
  "Assigning hyper-parameters to an existing optimizer (as the tuner does for each grid point) and then solving gives the same behaviour as constructing the optimizer with those values: nothing computed from a hyper-parameter at construction time is used by a run instead of the current value. Unknown names are rejected.",
  ["inputs", "configurations", "histories"], "all algorithms, all hyper-parameters, all new values",
  "The tuner tests only check that a table with the right shape comes out, not that each row was produced with the parameters it names.",
  [OPT, "mealpy/tuner.py"] + ALG,
  [("set_parameters assigns attributes; derived quantities must be computed at run start", OPT)],
  [("derived attributes", "values computed from hyper-parameters", "mealpy/*_based/*.py")]))
PR.append(P("C10", "Function evaluations are counted exactly once each",
  "In every mode the reported number of function evaluations grows by exactly one for each evaluation of the objective made during a run, so a max-evaluations limit means what it says. Algorithms evaluate the objective only through the counting interface, never count by hand, and never evaluate the same candidate twice because of the mode.",
  ["configurations", "programs", "schedules"], "all modes, all algorithms, all worker counts",
  "Tests only check that a run with an evaluation limit ends.",
  [OPT] + ALG,
  [("get_target(counted) / update_target_for_population / generate_population", OPT)],
  [("self.nfe_counter", "number of evaluations", OPT)]))
PR.append(P("C11", "Parallel evaluation is equivalent to sequential batch evaluation",
  "In the thread and process modes each candidate receives the result of its own evaluation regardless of the order in which workers finish, work done in workers has no side effect the run relies on, and all random draws are made by the coordinating thread. With the same seed, 'swarm', 'thread' and 'process' therefore evaluate the same candidates.",
  ["schedules", "configurations"], "all completion orders, all worker counts, all algorithms that accept parallel modes",
  "Completion order is up to the scheduler; tests use a trivial objective where workers finish in order, and never compare modes.",
  [OPT],
  [("update_target_for_population: executor.map with positional write-back", OPT), ("generate_population", OPT)],
  [("self.mode, self.n_workers", "execution mode", OPT)]))
PR.append(P("C12", "Stopping criteria are honoured",
  "Every configured stopping criterion (epochs, evaluations, time, early stopping) is checked after every epoch against the quantity it names, and the run ends at the first epoch at which any of them is reached; criteria that were not configured never stop a run, and without a termination object the run executes exactly the configured number of epochs. Counters used by the criteria start fresh in every run.",
  ["configurations", "histories"], "all combinations and values of criteria, all runs",
  "Tests set one criterion at a time on tiny runs and cannot cover combinations or carry-over.",
  [OPT, "mealpy/utils/termination.py", "mealpy/utils/history.py"],
  [("solve loop, check_termination", OPT), ("Termination.should_terminate", "mealpy/utils/termination.py")],
  [("termination", "criteria and start values", "mealpy/utils/termination.py")]))
PR.append(P("C13", "Decision variables stay inside their domain",
  "For every decision-variable type, correcting any vector of the right length yields a vector inside the variable's declared lower/upper bounds, decoding first corrects and then yields a value of the declared domain, generated values are members of the domain drawn from the variable's own generator, and the declared dimension equals the length of both bounds. A mixed problem applies each variable to exactly its own slice of the vector, in declaration order.",
  ["inputs", "programs"], "all variable types, all bounds and category sets, all vectors, all mixtures",
  "No test file exercises the variable types at all; only float boxes are run.",
  ["mealpy/utils/space.py", "mealpy/utils/problem.py"],
  [("encode/decode/correct/generate per variable class", "mealpy/utils/space.py"), ("*_with_bounds slicing", "mealpy/utils/problem.py")],
  [("lb, ub, n_vars", "bounds and dimension", "mealpy/utils/space.py")]))
PR.append(P("C14", "Every algorithm is discoverable and constructible with defaults",
  "Every algorithm class shipped in the package is reachable through the public listing under its own, unique class name and through its module, implements a search step, carries its own metadata, and can be constructed without arguments. Lookup of an unknown name reports it instead of raising.",
  ["programs", "configurations"], "all algorithm classes in the package",
  "No test enumerates the registry; a dropped import or a duplicated class name silently hides an algorithm.",
  ["mealpy/__init__.py"] + ALG,
  [("get_all_optimizers / get_optimizer_by_class / get_optimizer_by_name", "mealpy/__init__.py"), ("imports in mealpy/__init__.py", "mealpy/__init__.py")]))
PR.append(P("C15", "No algorithm hits an undefined name, attribute or mismatched call",
  "For every algorithm, mode and reachable branch, every variable is assigned before it is read, every attribute read was set earlier in the same object's life, and every call to a library function or method supplies arguments its signature accepts. A run never aborts with an internal name, attribute or signature error.",
  ["programs", "configurations", "inputs"], "all algorithms, all branches, all modes",
  "Rare branches (restart, stagnation, last epoch, parallel modes) are not reached by short runs and 77 modules have no test.",
  ["mealpy"],
  [("definite assignment and attribute initialisation across __init__/initialize_variables/initialization/before_main_loop/evolve", "mealpy/*_based/*.py")]))
PR.append(P("C16", "Failures of the objective are never swallowed",
  "An exception raised while evaluating the objective reaches the caller of the solver in every mode: the library neither catches it nor drops the result of a worker, and an invalid objective value is rejected. The same holds for trials run by the tuner and the multitask utility.",
  ["fault_sequences", "configurations"], "any evaluation failing at any point, in every mode",
  "No test uses a failing objective.",
  [OPT, "mealpy/utils/problem.py", "mealpy/utils/target.py", "mealpy/tuner.py", "mealpy/multitask.py"] + ALG,
  [("executor results are consumed; no try/except around evaluation", OPT)]))
PR.append(P("C17", "The caller's objects are left as they were",
  "Solving, tuning and multitasking do not modify the objects the caller passed in: problem dictionaries, bounds, starting positions, termination settings, parameter grids and lists of algorithms or problems keep their contents (apart from installing the seed the caller asked for, and a termination object's own counters and message). A run works on its own copies of the starting positions. Arguments of the methods of problems and variables are not changed either.",
  ["inputs", "histories"], "all inputs, all algorithms",
  "Tests build a fresh problem for each call and never look at it again.",
  [OPT, "mealpy/tuner.py", "mealpy/multitask.py", "mealpy/utils/problem.py"] + ALG,
  [("check_problem, before_initialization, __init__ of the utilities", OPT)]))
PR.append(P("C18", "Multitask runs and records every algorithm/problem/trial",
  "For each algorithm and each problem the requested number of trials is executed with the termination and mode given for that pair, every trial's best fitness and convergence is recorded under that problem and trial, and results are exported in the requested format once per algorithm. Settings given as one, per-algorithm, per-problem or per-pair lists are assigned to the right pairs, and the results of two algorithms or two problems never overwrite each other.",
  ["configurations", "inputs"], "all numbers of algorithms, problems and trials; all broadcasting shapes; sequential and parallel jobs",
  "There is no test of the multitask utility.",
  ["mealpy/multitask.py"],
  [("check_input broadcasting; execute loops; export_to_*", "mealpy/multitask.py")]))
PR.append(P("C19", "The tuner tries every setting and picks the best one",
  "The tuner evaluates every point of the parameter grid the requested number of times, records each trial with the parameters that produced it, ranks by mean and then spread under the problem's direction, and reports as best the top-ranked row; indexing a grid agrees with iterating it. Re-solving uses the reported best parameters.",
  ["configurations", "inputs"], "all grids, both directions, all numbers of trials, sequential and parallel jobs",
  "One small minimisation grid is run and only its shape is checked.",
  ["mealpy/tuner.py"],
  [("ParameterGrid.__iter__/__len__/__getitem__", "mealpy/tuner.py"), ("Tuner.execute ranking, best_* properties, resolve", "mealpy/tuner.py")]))
PR.append(P("C20", "Per-epoch history series stay aligned",
  "Each completed epoch adds exactly one entry to each per-epoch series of the history (best/worst records, best fitness, runtime, diversity and, when enabled, population snapshots), whatever path the epoch takes, and the initial records are dropped exactly once at the end. All series of a finished run therefore have the number of executed epochs as length and entry k of each describes epoch k.",
  ["histories", "configurations"], "all numbers of epochs, early stops, algorithms",
  "Tests do not look at history lengths, and algorithms that touch the records themselves would only be seen there.",
  [OPT, "mealpy/utils/history.py"] + ALG,
  [("track_optimize_step / update_global_best_agent / track_optimize_process", OPT)],
  [("history.list_*", "per-epoch series", "mealpy/utils/history.py")]))
PR.append(P("C21", "Optimizers can be sent to workers and saved to disk",
  "Every optimizer stays serialisable before, during and after a run: it never stores functions defined inside functions, open files, executors, locks, generators or similar handles on itself, its candidates, its variables or its termination. Saving and loading a model with the same path use the same file.",
  ["programs", "configurations"], "all algorithms, all modes",
  "Process mode and saving are not tested beyond the base class.",
  [OPT, "mealpy/utils/io.py", "mealpy/utils/agent.py", "mealpy/utils/space.py"] + ALG,
  [("instance attributes hold plain data", OPT), ("save_model/load_model", "mealpy/utils/io.py")]))
PR.append(P("C22", "Every position read exists, down to the smallest accepted population",
  "For every algorithm and every population size its constructor accepts, each draw of distinct members from the population asks for no more members than are available, each fixed, drawn or computed position read from the population lies inside it, and solution vectors and bounds are indexed by coordinates, never by population positions; so no accepted population size aborts a run with an index or sampling error.",
  ["configurations", "inputs"], "all algorithms, all accepted population sizes",
  "Tests use population sizes of 20-100; only the smallest accepted sizes fail.",
  ALG, [("generator.choice(..., k, replace=False) vs. validated lower bound of pop_size", "mealpy/*_based/*.py")]))
PR.append(P("C23", "Invalid requests are rejected before the search starts",
  "An unknown mode, a problem or termination of the wrong kind, an out-of-range worker count, starting positions of the wrong shape (any row of them), a termination without criteria, an invalid variable definition (limits of different lengths or of the wrong kind, sets with fewer than two or with repeated members where they must differ, an unknown transfer function, a non-positive number of variables) and unknown hyper-parameter names are rejected with an error; they never silently fall back to something else. Limits with lower above upper are not among the rejected definitions. Range checks treat bracketed bounds as inclusive and parenthesised bounds as exclusive for every number, including infinite ends.",
  ["inputs"], "all invalid inputs, all public entry points",
  "Tests try a handful of wrong values.",
  [OPT, "mealpy/utils/validator.py", "mealpy/utils/termination.py", "mealpy/utils/problem.py", "mealpy/utils/space.py", "mealpy/utils/target.py"],
  [("Validator.check_*, is_in_bound", "mealpy/utils/validator.py"), ("check_problem/check_mode_and_workers/check_termination/before_initialization", OPT)]))
PR.append(P("C24", "The library's protocol methods are not bypassed or replaced",
  "Algorithms take part in a run only through the documented extension points: none replaces the run loop, evaluation, correction, counting, tracking or input checks, and every replacement of an extension point keeps its contract (it accepts the same arguments, returns a value on every path, and still produces a usable candidate for any given starting position).",
  ["programs"], "all algorithms and all overridden extension points",
  "An override that ignores its argument or forgets a return works in the default flow that tests use.",
  [OPT] + ALG, [("extension points: initialize_variables, initialization, generate_empty_agent, generate_agent, amend_solution, before_main_loop, evolve", OPT)]))
PR.append(P("C25", "Every epoch ends",
  "No search step can loop forever: every loop in an algorithm either iterates over a finite collection fixed before the loop, makes progress on every iteration towards an exit condition, or repeats a random draw whose exit has positive probability for every accepted configuration.",
  ["inputs", "programs", "configurations"], "all algorithms, all configurations and draws",
  "A loop that can stall needs a particular state; tests only see a time-out.",
  ALG, [("while loops in evolve and helpers", "mealpy/*_based/*.py")]))
# ---- declined
PR.append(P("C40", "Search equations follow the cited publications",
  "Each algorithm's update equations, coefficients and schedules are those of the publication it cites (or of its documented variant).",
  ["programs", "inputs"], "all algorithms", "Tests check no numerical result.", ALG, [("evolve()", "mealpy/*_based/*.py")]))
PR.append(P("C41", "Positions and fitness stay finite",
  "On a problem with finite bounds and finite objective values, no algorithm produces a NaN or infinite position, probability or step.",
  ["inputs", "histories"], "all algorithms, all draws, all fitness landscapes (including constant ones)",
  "Division by a vanishing spread needs a converged or constant population.", [OPT] + ALG, [("EPSILON guards", OPT)]))
PR.append(P("C42", "Random operators have their documented distributions",
  "Roulette-wheel, tournament, Levy-flight and chaotic-map operators draw from the distributions they document.",
  ["inputs"], "all arguments", "Statistical property.", [OPT, "mealpy/utils/chaotic.py", "mealpy/utils/transfer.py"], [("get_index_roulette_wheel_selection, get_levy_flight_step", OPT)]))
PR.append(P("C43", "Decoding an encoded real-world solution gives it back",
  "For every variable type and every member of its domain, decoding the encoding of that member returns the member.",
  ["inputs"], "all variable types and members", "Not tested.", ["mealpy/utils/space.py"], [("encode/decode", "mealpy/utils/space.py")]))
PR.append(P("C44", "Time limits are respected within one epoch",
  "A run with a time limit ends no later than the end of the epoch during which the limit passed, in wall-clock time.",
  ["schedules"], "all machines and loads", "Timing.", [OPT, "mealpy/utils/termination.py"], [("should_terminate", "mealpy/utils/termination.py")]))
PR.append(P("C45", "Charts show the recorded data",
  "Each exported chart plots exactly the series of the history it names, with matching labels and legends.",
  ["inputs"], "all charts", "Rendering is not tested.", ["mealpy/utils/visualize/linechart.py", "mealpy/utils/history.py"], [("export_*_chart", "mealpy/utils/visualize/linechart.py")]))

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in PR:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(PR), "properties")
