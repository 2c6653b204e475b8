CLAIMS = {
 "C18": ("abstract interpretation (event summaries of the constructor and execute with generic loop iterations), unfolded over finite configurations and compared with the specified runs and tables",
         "Static; the analysed code is never run: its summary of calls, stores and appends is unfolded over every accepted shape of the settings lists for up to three algorithms, problems and trials, sequential and parallel. Optimizer.solve, the validator and pandas stand for their documented meaning; constructs without a meaning are reported as undecided."),
 "C19": ("abstract interpretation (event summaries of Tuner and ParameterGrid with generic loop iterations), unfolded over finite grids and compared with the specified trials, records and ranking",
         "Static; summaries are unfolded over grids of one to three parameters and lists of grids, one to four trials, both directions, ties, every mode, sequential and parallel jobs. Optimizer.solve, set_parameters, the validator and the used pandas operations stand for their documented meaning."),
 "C01": ("abstract interpretation (candidate typestate: corrected/uncorrected positions)",
         "Static typestate analysis of every optimizer class in every mode; sound for the modelled subset, unknown calls are treated as harmless and counted in the evidence."),
 "C02": ("abstract interpretation (value numbering of solution/target pairs)",
         "Static; each population member's target is traced to the solution it was computed from on every abstract path."),
 "C03": ("abstract interpretation (canonical terms of the tracking functions against their specification)",
         "Static; each tracking function is reduced to canonical terms for both directions and every ordering of the compared fitness values and compared with the specified records; terms outside the algebra are reported as undecided, never as violations."),
 "C04": ("abstract interpretation (canonical terms of the comparison helpers) and direction analysis of every ordering site",
         "Static; helpers are compared with their specification for both directions, and every branch, sort or extreme selection in an algorithm whose operands derive from fitness must be reachable with direction-dependent outcome."),
 "C05": ("abstract interpretation (ownership/aliasing of solution arrays)",
         "Static escape and in-place-mutation analysis of solution arrays reachable from the population or the records."),
 "C12": ("abstract interpretation (canonical terms and path conditions of the stopping logic, bounded truth table)",
         "Static; every path of should_terminate is compared with the specified truth table for all 16 configurations, the quantities and start values handed to it are traced to the counters they stand for, and the run loop's calls are counted and ordered on every path."),
 "C20": ("abstract interpretation (canonical terms of the recording functions, call counts per epoch, effects of search steps on the history)",
         "Static; entries added per series are computed for every path of the recording functions and of the run loop; search steps are interpreted for writes to the history."),
 "C06": ("resolved-name census of random sources, clock and process state; abstract interpretation of seeding functions and search steps",
         "Static; every use of an external source of variation in the package is resolved and judged, and the canonical terms of the functions that create and seed the sources of a run are compared with their specification. Draw order under worker pools and floating-point library differences are outside it."),
 "C07": ("abstract interpretation (live-in and modified attributes per run, in-place changes of constructor objects), canonical terms of the reset functions, effect scan for class/module/default-argument state",
         "Static; an attribute is reported when a run may read it before setting it and may modify it. Attributes only set under correlated run-time conditions are not reported when the constructor does not provide them."),
 "C08": ("abstract interpretation of every constructor (check -> stored attribute -> reported name), validator truth tables over order types, reviewed range table",
         "Static; every constructor path of every optimizer is interpreted, the accepted range of each argument is compared with a reviewed table of ranges, and the validator is evaluated over all orderings of a value and its limits."),
 "C09": ("abstract interpretation (constructor terms of derived attributes joined with the attributes a run reads before setting them), canonical terms of the assigning functions",
         "Static; an attribute is reported when its constructor-time value or the choice of it depends on a hyper-parameter and a run may read it before computing it anew. Values captured in closures are not followed."),
 "C13": ("abstract interpretation (canonical terms of every variable's methods, decided over finite models of limits, label sets, critical values and extreme draws; symbolic slices of mixed problems)",
         "Static; bounded models: values on a grid around every limit, label sets of up to five labels and variables of up to five dimensions; transfer functions are taken to return values between 0 and 1 and trained label encoders to match their specification, which is decided separately."),
 "C14": ("static namespaces of the package and its modules (last binding counts), metadata and constructor defaults of every class; canonical terms of the lookup functions evaluated over the package's static namespace",
         "Static; the lookup functions are interpreted once and their conditions decided for every algorithm class and module the source binds, and for names that are none."),
 "C15": ("scope resolution, condition-sensitive definite-assignment dataflow, attribute universes per class, argument binding against recorded library signatures, abstract interpretation of every optimizer for attributes read before being set",
         "Static; for loops are taken to run at least once and facts about conditions are assumed to survive method calls; objects of unstated type are checked against the attributes any known type has."),
 "C22": ("symbolic size and index-bound analysis (population size, dimensions, constants) of every subscript and draw",
         "Static; positions and draws whose size or bound is not a linear expression in the population size or the number of dimensions, and positions under a condition on the index, are counted as open, not judged."),
 "C23": ("abstract interpretation of every request check over finite models of requests (kinds, lengths, boundary values), must-precede analysis of the run loop",
         "Static; the checking functions are interpreted on every path and decided for every request of a finite model: each kind of value, lengths around the required one, and numbers at and around every limit."),
 "C10": ("abstract interpretation (effect analysis of evaluation calls)",
         "Static effect analysis of every objective evaluation in every mode."),
 "C11": ("abstract interpretation (canonical terms of the population evaluation in every mode), effect analysis of worker functions, evaluation of every mode test for the equivalent modes",
         "Static; completion order is modelled by an unknown order, so pairing holds for every schedule. The user's objective is opaque: effects inside it are outside the check."),
 "C16": ("call-graph reachability of the objective joined with an enumeration of handlers, finally blocks, context managers, decorators, worker hand-overs and threads; finite model of objective values",
         "Static; the call graph over-approximates calls on objects of unknown type by method name. Values that are numbers but not finite are not judged."),
 "C24": ("class-hierarchy search for replaced protocol methods, abstract interpretation of every replacement of an extension point against its contract, call sequences of the run loop",
         "Static; what a replacement does besides its contract (evaluations, history, records) is decided by the other checks."),
 "C25": ("progress analysis of every loop and recursion a run can enter (reaching definitions, finite-model arithmetic of the moves, support of the draws that decide the exit)",
         "Static; a redraw loop is accepted when the draw can produce the exit whatever the objective returned; two numeric moves outside the arithmetic are counted as open."),
 "C17": ("interprocedural alias and mutation summaries (access paths from parameters, composed over every definition a call may mean, to a fixpoint)",
         "Static; paths are cut at six fields; loops are walked twice; library calls that are not listed as changing or returning their argument are taken to do neither; the user's objective is opaque."),
 "C21": ("interprocedural store summaries with unpicklable things (inner functions, generators, files, locks, executors, modules, dict views) as origins; path terms of save_model and load_model compared over a finite model of arguments",
         "Static; the kinds of thing pickle refuses are a list; objects made by library calls that are not on it count as plain; the user's objective is opaque; paths are cut at six fields."),
}
NA = {
 "C40": "Whether an update equation is the published one is a comparison with documents outside the code; nothing in the source states it.",
 "C41": "Finiteness of floating-point positions depends on run-time magnitudes (division by fitness spreads, exponentials of ratios) that no sound static bound in reach covers without flagging correct code.",
 "C42": "Distribution of samples is a numerical property of run-time values; the source shows which draw is made, not its distribution after the arithmetic.",
 "C43": "encode/decode inverse for arbitrary user-supplied categories and label encoders depends on run-time values of user objects.",
 "C44": "Wall-clock time of a run is not a property of the source.",
 "C45": "Chart content is produced by matplotlib at run time; series/label agreement is not decidable from calls alone.",
}
_LATER = "Check not built yet."
for i in range(1, 26):
    NA.setdefault(f"C{i:02d}", _LATER)
