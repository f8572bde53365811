"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Asynchronous generations match one-at-a-time differential evolution",
 "However many evaluations are in flight and in whatever order they complete, a generation has the effect of classic differential evolution taking the targets one after another in population order: each challenger is built from the earlier targets as already decided and the later ones as not yet challenged. "
 "A challenger is the target crossed over (at least one parameter always mutated; at crossover rate 0 only that one, at rate 1 every one) with base + F * (difference of two members), limited to the bounds by reflection, where target, base and the two others are four different members and F is the configured weight or lies in the configured range. "
 "Unless random bases are configured, the base is the best member at the time the challenge is issued (the next best one when the target itself is the best).",
 ["schedules", "inputs", "configurations"],
 "every completion order and delay pattern of the evaluations of a generation, immediate and deferred results mixed, every population size, dimension, CR, F, base mode and bounds",
 "Tests run a handful of generations with immediate results or fixed thread delays and only look at the final SSE; a challenger built from a stale or half-updated member still converges, so no test can notice it, and the set of completion orders is far beyond enumeration.",
 ["ade/de.py", "ade/population.py", "ade/individual.py"],
 [("per-index locks queued atomically in target order", "de.DifferentialEvolution.challenge, population.Population.lock/release"),
  ("mutation, crossover, reflection", "de.DifferentialEvolution.crossover, population.ParameterManager.limit")],
 ["vectors passed to the evaluation function", "population contents at generation boundaries"],
 [("dLocks", "one lock per member index", "ade/population.py"), ("iList", "the members", "ade/population.py")])

prop("C02", "Members yield only to strictly better challengers, at their true SSE",
 "During evolution a member is replaced only at its own position and only by a challenger whose evaluated SSE is strictly lower, and every challenger with a strictly lower SSE than its target does take that target's place; so the population size stays the same and the best SSE never gets worse. "
 "Each member's SSE is at all times exactly the value the evaluation function returned for exactly that member's parameter values. "
 "An invalid result (None, infinite or not-a-number) counts as worse than every valid one: it never replaces a member and a member having it loses to every valid challenger.",
 ["schedules", "inputs", "fault_sequences"],
 "every completion order, every mix of valid and invalid evaluation results, every configuration without complaints about individuals",
 "Tests check the final best SSE after whole runs on smooth functions; they never cross-check member SSEs against what was returned for those values, nor mix invalid results and out-of-order completions.",
 ["ade/de.py", "ade/population.py", "ade/individual.py"],
 [("tournament and replacement", "de.DifferentialEvolution.challenge"), ("SSE property and comparison", "individual.Individual"), ("item setting", "population.Population.__setitem__")],
 ["population contents after every simulated event", "evaluation results"])

prop("C03", "Every generation challenges each member exactly once",
 "In every completed generation each member is challenged exactly once: one evaluation per member, except that a challenger violating the constraints is dropped without evaluation and its target kept. "
 "The per-generation callback is called with 0, 1, 2, ... once after each generation that does not itself end the run early, after all evaluations of that generation have been decided and before any of the next begins. "
 "A generation does not begin before all report callbacks and history updates of the preceding one have finished.",
 ["schedules", "configurations"],
 "every completion order and delay of evaluations and report callbacks, every population size, with and without constraints",
 "Tests count generation callbacks of one run with quick evaluations; lost or doubled challenges and overlapping generations depend on the order of completions.",
 ["ade/de.py", "ade/population.py"],
 [("generation loop", "de.DifferentialEvolution._run"), ("waiting for reports", "population.Population.waitForReports")],
 ["evaluation and constraint calls", "generation callback", "report callback start and end"])

prop("C04", "Runs stop exactly at iteration limit, goal SSE or lasting stagnation",
 "A run that is not aborted and meets no fatal error ends after the first generation in which the best SSE is below the configured goal, or else after exactly the configured maximum number of generations, or else, only when F is adapted and running to the bitter end was not requested, once more than the configured dwell number of generations without enough improvement have passed with F at its lower limit since the last sufficient one. "
 "It never ends earlier for any other reason and never runs a generation more.",
 ["schedules", "histories", "configurations"],
 "every history of generation outcomes and every combination of goal, iteration limit, adaptive, bitter-end and dwell settings, under every completion order",
 "Tests run fixed small iteration counts, never set a goal SSE and never reach the stagnation stop in a controlled way.",
 ["ade/de.py", "ade/population.py"],
 [("stop conditions", "de.DifferentialEvolution._run"), ("limit flag", "de.FManager.down/up"), ("improvement score", "population.Population.replacement")],
 ["number of generations seen by evaluation function and generation callback", "completion of the run"])

prop("C05", "Differential weight adapts between generations within its limits",
 "All challengers of a generation use the same F setting; without adaptive mode it is always the configured one. "
 "In adaptive mode a generation in which no challenger won or tied lowers it one step, a generation whose improvement (the sum, over the winning challengers, of the rounded ratio of the target's SSE to the challenger's less a half, but 0.1 for SSEs that are equivalent, plus a half for each new best of all) is above the status-quo threshold (the target fraction of the population size) raises it one step back towards (never beyond) the configured setting, the first generation leaves it unchanged, and any other generation does one or the other. "
 "A step scales a single F, or the lower end of a range, by a fixed factor as long as it stays above the critical value for the crossover rate and population size, and thereafter the upper end of a range as long as it stays more than three times the lower end.",
 ["histories", "schedules", "configurations"],
 "every sequence of improving and failing generations, every F (single or range), CR and population size, every completion order",
 "Tests call the F manager's up/down directly; whether a run as a whole uses the adapted value, at the right time, for every challenger of a generation cannot be seen from there.",
 ["ade/de.py", "ade/population.py", "ade/report.py"],
 [("adaptive F", "de.FManager"), ("improvement score", "population.Population.replacement, report.Reporter.msgRatio")],
 ["F inferred from challenger vectors, generation by generation"])

prop("C06", "Only in-bounds, constraint-satisfying parameters are ever evaluated",
 "Every vector of parameter values submitted to the evaluation function, during population setup as well as evolution, has every value within the current bounds and satisfies all constraints in force when it was made, also after the constraints were changed between generations and after a population was loaded with new bounds. "
 "Consequently every member obtained by evaluation does so too.",
 ["inputs", "histories", "schedules", "configurations"],
 "every bound and constraint configuration, every sequence of constraint changes, reloads with other bounds, and completion orders",
 "Tests check limit and constraint helpers on single vectors; nothing checks all vectors of whole runs, nor after reloading with other bounds.",
 ["ade/population.py", "ade/de.py", "ade/constraints.py"],
 [("reflection and clipping", "population.ParameterManager.limit"), ("constraint check", "population.ParameterManager.passesConstraints"), ("use", "de.DifferentialEvolution.challenge, population.Population.setup")],
 ["vectors passed to the evaluation function"])

prop("C07", "Population setup yields exactly the right number of valid members",
 "If enough evaluations eventually give valid results, setup completes with true and exactly the configured number of members, each with a finite SSE that was returned for its values, no matter in what order evaluations finish and how many give invalid results. "
 "At no time during setup are more than the configured maximum number of evaluations in flight, and setup does not complete while one is. "
 "The best individual reported during setup is a member of the completed population. "
 "If a constraint raises an error, that becomes the failure of the setup, and a later setup works.",
 ["schedules", "fault_sequences", "configurations"],
 "every completion order and delay of the initial evaluations, every pattern of invalid results, every parallelism limit and population size",
 "Tests set up populations with functions that succeed at once or with one fixed delay; over-evaluation with late results and invalid results in the last slots depends on the schedule.",
 ["ade/population.py", "ade/report.py"],
 [("populate loop and concurrency limiting", "population.Population.setup")],
 ["evaluation calls in flight", "members", "report callbacks"])

prop("C08", "User abort stops setup or a run promptly and cleanly at any instant",
 "When the user aborts (Enter key or its programmatic equivalent) at any instant, a run in progress completes without waiting for any evaluation or report callback still in flight, and a setup in progress completes, without reporting readiness, as soon as the evaluations already in flight have finished. "
 "From then on no evaluation is started with real parameter values, no report callback is started, and no member of an evolving population changes, even when evaluations still in flight finish later. "
 "Every registered abort callback is called exactly once however often Enter is pressed, also one registered after the abort, and this holds for loaded populations as for new ones.",
 ["schedules", "fault_sequences"],
 "every instant of setup, evolution and reporting at which the key can be pressed, repeated key presses, evaluations or callbacks that never finish",
 "One test aborts setup at a fixed time; aborts between lock grants, during report callbacks, history computations or right at a generation boundary are a matter of the exact interleaving.",
 ["ade/abort.py", "ade/de.py", "ade/population.py", "ade/report.py"],
 [("keyboard protocol", "abort.Keyboard"), ("abort propagation", "population.Population.abort, report.Reporter.abort, de.DifferentialEvolution.shutdown")],
 ["completion of setup and run", "evaluation calls", "members", "report callbacks", "abort callbacks"])

prop("C09", "A fatal evaluation stops everything and never enters the population",
 "If any evaluation is fatal (negative result, raised exception or failed deferred result) during evolution, the run completes without waiting for any other evaluation, no further evaluation is started, the failed challenger does not become a member and no member changes any more; other challenges of the generation that were decided before keep their effect. "
 "If it happens during setup, setup completes without reporting readiness once the evaluations in flight have finished, no further evaluation with real values is started, and running evolution on that population completes at once without evaluating anything.",
 ["fault_sequences", "schedules"],
 "every point of setup and evolution at which an evaluation can fail, every way of failing, every completion order of the others",
 "Tests fail one evaluation of a fully immediate or thread-paced run; which other challenges are waiting for locks or in flight at that moment is schedule dependent.",
 ["ade/de.py", "ade/individual.py", "ade/population.py"],
 [("failure to negative SSE", "individual.Individual.evaluate"), ("shutdown", "de.DifferentialEvolution.shutdown/challenge"), ("bogus initial evaluation", "population.Population.setup")],
 ["completion of setup and run", "evaluation calls", "members"])

prop("C10", "Runs always finish and leave the population ready to evolve again",
 "As long as every evaluation and callback eventually completes, setup and every run complete, exactly once and with the population as the run's result, whatever the delays, completion order, sizes of results (including invalid, huge, equal and zero ones), constraint rejections and history load. "
 "After a run has ended in any way short of a user abort or a failed report callback (iteration limit, goal, stagnation, shutdown call, fatal evaluation, an error raised by a constraint, or one raised by the generation callback, which becomes the failure of the run) and its outstanding evaluations have finished, a new run on the same population works and completes likewise.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "every completion order, evaluation result and way of ending a run",
 "A deadlock or a lock left behind needs particular overlaps of target, base and difference indices with particular completion orders; tests see a few schedules and mostly a single run per population.",
 ["ade/de.py", "ade/population.py", "ade/history.py", "ade/report.py"],
 [("deadlock-free lock acquisition", "population.Population.lock"), ("release on all paths", "de.DifferentialEvolution.challenge"), ("history lock", "history.History.add")],
 ["completion of setup and runs within bounded simulated time after the last outside event"])

prop("C11", "Best-individual reports are serialized, ordered and end with the final best",
 "Report callbacks are called with the values and SSE of one individual and the extra arguments given when they were added, in the order they were added, each only after the previous one has finished; a round for another individual never starts before the current round is over. "
 "Reported SSEs never increase, no individual is reported twice in a row, and whenever no round is in progress the last reported SSE is within the significance threshold (2% by default) of the best SSE found so far. "
 "A run that completes normally does so only after its final best member has been reported and that round has finished.",
 ["schedules", "configurations"],
 "every delay of report callbacks relative to evaluations, every number of callbacks, every significance threshold",
 "Tests use a few callbacks with one fixed delay; lost or overlapping rounds depend on when new bests appear relative to the running round.",
 ["ade/report.py", "ade/population.py", "ade/de.py"],
 [("coalescing callback runs", "report.Reporter.runCallbacks/newBest"), ("forced final report", "population.Population.report, de.DifferentialEvolution._run")],
 ["report callback calls and completions", "population best"])

prop("C12", "Complaints permanently demote an individual and reinstate the earlier best",
 "When a report callback complains about an individual (returns anything but None), the complaint handler is called once with that individual and the complaint, and from then on the individual has the worst possible SSE, so that it is never again the best member or the subject of another round of reports while a member with a valid SSE exists, and it loses to any challenger with a valid SSE. "
 "The best individual reported before and not complained about becomes the standing best again: but for the opening and closing reports of a run, only individuals with a lower SSE than that are reported.",
 ["schedules", "fault_sequences", "histories"],
 "every sequence and timing of complaints relative to evaluations, new bests and running callback rounds",
 "One test makes a single complaint on a mock population and only checks that the handler was called; who is best afterwards is not checked.",
 ["ade/report.py", "ade/individual.py", "ade/population.py"],
 [("complaint processing", "report.Reporter.runCallbacks/newBest"), ("blacklisting", "individual.Individual.blacklist")],
 ["report callbacks", "complaint handler calls", "members' SSEs"])

prop("C13", "A failing report callback stops reporting and ends the run",
 "If a report callback raises or its deferred result fails, or the handler of complaints does, no other report callback is started afterwards, no further evaluation with real parameter values is started, and a setup or run in progress completes once the evaluations in flight have finished, without starting another generation. "
 "The failure never propagates as an error of the setup or run itself.",
 ["fault_sequences", "schedules"],
 "every report at which a callback can fail, every kind of failure, every phase and completion order",
 "Tests fail a callback directly on a reporter with a mock population, never in a run with evaluations in flight and further reports queued.",
 ["ade/report.py", "ade/population.py", "ade/de.py"],
 [("failure token and abort", "report.Reporter.runCallbacks/abort"), ("loop conditions", "de.DifferentialEvolution._run")],
 ["report callback calls", "evaluation calls", "completion of setup and run"])

prop("C14", "History stays sorted, bounded and true to the population",
 "Once pending updates have been applied, the history holds one record per addition, in ascending SSE order, never more than its maximum, each one the SSE and values (to single precision) of an individual that was evaluated and added; as long as the maximum has not been reached, none is missing, and from then on each addition displaces exactly one, unless all are of members. "
 "Exactly the current members with a finite SSE are marked as in the population, exactly those recorded only as failed challengers as never having been in it, and records of members are never dropped to make room. "
 "This holds for every interleaving of additions, removals, purges and queries with the background search for an expendable record.",
 ["schedules", "histories", "inputs"],
 "every interleaving and sequence of history operations, duplicates, huge SSEs and full rosters included",
 "Tests apply short fixed sequences one at a time, mostly without reaching the maximum through a real run; overlapping operations and gaps left by purges are not covered.",
 ["ade/history.py", "ade/population.py", "ade/individual.py"],
 [("row allocation", "history.History.kkr"), ("locking", "history.History.add/notInPop/purgePop"), ("expendable search", "history.ClosestPairFinder"), ("identity", "individual.Individual.__hash__")],
 ["history queries by category", "history length and iteration"],
 [("K, Kp, Kn, kr", "row order, in-population rows, never-in-population rows, individual to row map", "ade/history.py")])

prop("C15", "Saved populations round-trip and resume faithfully in a new process",
 "Loading a file saved by a population gives back the same members in the same order with the same values and SSEs, the same best, bounds, constraints and history records with their status, whatever was going on when it was saved and also in a new process. "
 "With new bounds given on loading, the only change to the members is that their values are limited to those bounds. "
 "The loaded population can be evolved on, and everything that holds for a fresh population, including the history's account of who is in the population when it was saved at rest, holds for it.",
 ["histories", "crash_points", "configurations"],
 "every state in which a population can be saved (fresh, mid-run, aborted, after several runs and reloads), restart in processes with other hash seeds",
 "Tests load in the same process right after saving a freshly set-up population; process restarts and resumed runs are not covered.",
 ["ade/population.py", "ade/history.py", "ade/individual.py"],
 [("pickling", "population.Population.__getstate__/__setstate__/save/load, history.History.__getstate__/__setstate__, individual.Individual.__getstate__")],
 ["members, bounds, history of the loaded population", "resumed runs"])

prop("C16", "An interrupted save never loses the last good save",
 "If saving a population fails or the process is killed at any point of it (full disk, write error, crash), then the file at the given path afterwards still loads as either the previously saved population or the new one, complete; where there was no previous one, there is no loadable file with wrong content. "
 "A save that returns normally has replaced the previous content with a complete new one, and leaves no other files behind. The same goes for the parameters of an individual.",
 ["crash_points", "fault_sequences"],
 "every byte position and file-system call of a save at which it can fail or the process can die, first saves and overwriting saves",
 "No test interrupts a save.",
 ["ade/population.py", "ade/individual.py"],
 [("save", "population.Population.save"), ("parameters of an individual", "individual.Individual.save")],
 ["the file after the fault, loaded in a fresh population"])

prop("C17", "Log destination failures never disturb setup or evolution",
 "If the log destination starts to fail at any moment and in any way (write, flush or close raising, once or for good), setup, evolution, reporting and their results are exactly the same as with logging turned off. "
 "While it works, what is logged does not influence the results either.",
 ["fault_sequences", "schedules"],
 "every log call at which the destination can begin to fail and every combination of failing operations",
 "Tests log to a string buffer that never fails.",
 ["ade/util.py", "ade/de.py", "ade/report.py"],
 [("error handling of the messenger", "util.Messenger.writeLine/writeChar/_fhSet")],
 ["complete event history of the run, compared with the same run without logging"])

prop("C18", "Early cutoff gives each challenger its own target's SSE, records no partials",
 "With early cutoff enabled, every challenger's evaluation is given the SSE that its own target has at that moment, while initial evaluations are given none; without it no evaluation is given any. "
 "A challenger whose evaluation was cut off at a partial SSE above that value never replaces its target and leaves no record in the history; winners are recorded as usual.",
 ["schedules", "inputs", "configurations"],
 "every completion order and every cutoff behaviour of the evaluation function",
 "One test checks that a keyword arrives for a single challenge; whether it is the right target's current SSE when challenges overlap is not checked.",
 ["ade/de.py", "ade/individual.py", "ade/population.py"],
 [("xSSE", "de.DifferentialEvolution.challenge, individual.Individual.evaluate, population.Population.evalFunc")],
 ["arguments of the evaluation function", "history records"])

prop("C19", "Piecewise evaluation timer orders parts by true average duration",
 "Iterating the piecewise evaluation timer gives every part that has completed at least once, exactly once, in ascending order of the average time its completed calls took, failed calls included, whatever the overlap and completion order of the calls, also when calls complete during the iteration. "
 "The timer passes every call's result or failure through unchanged.",
 ["schedules", "inputs"],
 "every overlap, duration and failure pattern of the timed calls, on any clock offset",
 "One test uses a few real sleeps that always run in the same order.",
 ["ade/util.py"],
 [("elapsed time bookkeeping", "util.EvalTimer")],
 ["order of iteration", "results"])

prop("C20", "At most one image viewer is started per plot file",
 "For one plot file at most one image viewer is running at any time, across restarts as long as the record of its process number survives: a viewer is started, with its configured arguments, on an update of an existing file when and only when none is running, the next configured viewer is tried only after the previous one has ended with an error, and none is started once one has ended without error or has been terminated. "
 "The recorded process number is that of the viewer started last, and terminating the viewer signals it only while it runs.",
 ["schedules", "fault_sequences"],
 "every order of file updates, viewer exits and errors, stale or unreadable process records and restarts",
 "There is a single test which needs a display program; spawn failures, exits and restarts are not covered.",
 ["ade/image.py"],
 [("notification, PID file, spawn loop", "image.ImageViewer")],
 ["processes spawned, signals sent, PID file"])

prop("C21", "Parameter specification text yields the stated bounds and values",
 "Reading a parameter specification gives exactly the names, bounds, values and known-value overrides written in it, for every well-formed specification, and the same result on every reading.",
 ["inputs"],
 "every well-formed specification text",
 "Tests parse one sample specification.",
 ["ade/specs.py"],
 [("line parser", "specs.Specs/SpecsLoader")],
 ["parsed dictionaries"])

prop("C22", "Declared constraint methods see the right parameters in linear form",
 "Whenever a vector of parameters is judged by an object of declared constraint methods, each registered method is given the values which the parameters it declares have in that vector, those declared logarithmic converted to linear, and is taken as satisfied when a declared parameter is absent; functions appended later are given the raw parameters; and the vector passes if and only if all of them approve. A checker of linear relations approves exactly the parameters that lie within its maximum deviations. "
 "This holds however the object is used: given whole to a population or unpacked into its constraints, at construction or in the middle of a run, appended to meanwhile, shared by populations evolved at the same time, saved and loaded; constraints set later replace all earlier ones, and setting none clears them.",
 ["histories", "schedules", "inputs", "configurations"],
 "every set of declared methods, every sequence of uses of the object by runs in progress, every completion order",
 "There is no test of declared constraints at all; whether methods called later, in turns for several populations, still see their own parameters depends on the history of use.",
 ["ade/constraints.py", "ade/population.py"],
 [("wrapping of constraint methods", "constraints.Constraints.__iter__"), ("use", "population.ParameterManager.passesConstraints/setConstraints")],
 ["parameters given to constraint methods", "vectors passed to the evaluation function", "verdicts"])

prop("C23", "History queries give exactly the records asked for, as of one moment",
 "A query of the history for parameter values versus SSE, made at any moment (before there are any records, from report or generation callbacks, with updates or a background search for an expendable record pending), reflects all updates requested before it and none requested after it. "
 "It gives, in ascending order of SSE, exactly the records with the requested status (current members, former members, never members, or all) whose SSE is at most the given multiple (1000 by default) of the best recorded SSE, with the SSE followed by the values of the named parameters, in the order the names were given, of the same record.",
 ["schedules", "histories", "inputs", "configurations"],
 "every instant of a query relative to updates and background searches, every selection of names, status and limit, SSEs of zero included",
 "Tests query a history that is complete and idle, with SSEs well above zero.",
 ["ade/history.py"],
 [("selection", "history.Analysis.value_vs_SSE, history.History.value_vs_SSE"), ("waiting for updates", "history.History lock")],
 ["results of queries", "history iteration"])

prop("C24", "Evaluation counts and evaluation times are true",
 "As long as nothing is aborted and no evaluation is fatal, the population's evaluation counter is at all times the number of evaluations that have completed since its creation or latest setup; the count given to report callbacks never decreases and never exceeds the evaluations completed; "
 "and the evaluation times that the population gives are, member by member, the times which the evaluations of its members took, whatever their overlap and completion order.",
 ["schedules", "histories"],
 "every overlap, duration and completion order of evaluations, repeated runs and setups",
 "Tests check a counter after immediate evaluations one at a time.",
 ["ade/population.py", "ade/individual.py", "ade/report.py"],
 [("counting", "population.Population.evalFunc, report.Reporter.runCallbacks"), ("timing", "individual.Individual.evaluate, population.Population.evalTimes")],
 ["counter and evaluation times after every simulated event", "arguments of report callbacks"])

prop("C25", "The population's order and best are current at every moment",
 "At every moment, seen from anywhere (during setup, from evaluations, report callbacks, complaint handlers and generation callbacks, between runs), the population's best individual is a member with the lowest SSE of all members then present, its sorted view lists all members by ascending SSE, and its length, iteration, indexing and membership test agree with the members themselves. "
 "An individual pushed into the population replaces a member with the highest SSE, and the order is current again at once, as it is after a complaint has demoted a member.",
 ["schedules", "histories"],
 "every moment at which the population can be looked at, every order of completions, complaints and pushes",
 "Tests look at the order of populations at rest; a sorted view that is stale for some moments after a change shows only if it had been looked at just before.",
 ["ade/population.py", "ade/report.py", "ade/individual.py"],
 [("cached sort order and its invalidation", "population.Population.KS/__setitem__/addIndividual/push, report.Reporter")],
 ["population accessors after every simulated event and from all callbacks"])

prop("C26", "Populations evolved side by side do not influence each other",
 "When several populations are set up and evolved at the same time in one process, the members, reports, complaints, evaluation counts, history records, bounds and constraints of each come from its own evaluations, callbacks and configuration only. "
 "A fatal evaluation, failing report callback or shutdown of one doesn't stop or change the others, each of which runs for its own number of generations. Only the user's abort applies to all.",
 ["schedules", "fault_sequences", "configurations"],
 "every interleaving of two or three populations' evaluations, every moment at which one of them fails or is shut down",
 "Tests have a single population at a time.",
 ["ade/population.py", "ade/de.py", "ade/report.py", "ade/history.py", "ade/individual.py"],
 [("state per population", "constructors of Population, ParameterManager, Reporter, History, DifferentialEvolution"), ("abort callbacks", "abort module")],
 ["members, reports, complaints, counts and histories of all populations"])

prop("C27", "Random bases follow the configured bias over SSE ranks",
 "With random bases configured as true or 1.0, the base of a challenger is any member other than its target with the same chance. With a number rb between 0 and 1 the chance falls with the member's SSE rank (best first, as of the beginning of the generation, target left out) as a half-trapezoid: for rb of 0.5 and more it is constant over the best fraction 2*rb-1 of the ranks and falls linearly to zero at the worst end from there, below 0.5 it falls linearly from the best to zero at the fraction 2*rb. "
 "With zero or false it is always the best one. The two members whose difference is added to the base are any two others, neither of them the target or the base, with the same chance whatever the bias.",
 ["schedules", "histories", "configurations"],
 "every configured bias and population size, ranks changing from generation to generation, every completion order",
 "Tests check the sampling helper with a fixed population; whether it is applied to the current ranks of a run's members is not checked.",
 ["ade/de.py", "ade/population.py"],
 [("probabilities of indices", "population.ProbabilitySampler, population.Population.sample"), ("base choice", "de.DifferentialEvolution.challenge")],
 ["vectors passed to the evaluation function", "population contents at generation boundaries"])

prop("C28", "The progress log tells truly what became of every evaluation",
 "With logging on (to the destination given, or to the console if a run is given none; with None nothing is logged anywhere), every evaluation leaves exactly one progress character, in completion order during setup and under the heading \"Generation k/N\" of its own generation during evolution. "
 "In setup: * for the first, ! for a new best, otherwise a digit for how much worse than the best it is, # for an invalid result (% if the best is invalid too). "
 "In evolution: X for a failed challenge, # for one that failed because of an invalid result, otherwise the rounded ratio of the target's SSE to the challenger's (0 if they are equivalent, 9 for 9 and more), ! if the target was invalid, % if both were; a + follows for each new best of all. "
 "Each vector that fails the constraints leaves a blank.",
 ["schedules", "inputs", "configurations"],
 "every completion order, every combination of SSEs of targets and challengers, immediate and deferred",
 "Tests check the characters of single comparisons of fixed SSEs; none follows the log of a run.",
 ["ade/report.py", "ade/util.py", "ade/de.py", "ade/population.py"],
 [("progress characters", "report.Reporter.__call__/msgRatio, population.Population.showFailedConstraint"), ("log", "util.Messenger")],
 ["text given to the log destination"])

prop("C29", "Abort can be re-armed or disabled and leaves later work untouched",
 "After an abort, restarting makes the program ready again: a population made afterwards is set up and evolves with no trace of the abort, whatever the earlier population's evaluations still in flight do, and the next abort stops it in turn. "
 "Populations aborted before stay stopped and unchanged, and abort callbacks registered before a restart are not called again. "
 "With the keyboard ignored, key presses have no effect at any instant, until a restart; interrupt signals have none once there is a population. "
 "When the event loop is stopped, the console is released, and a run in progress completes without starting another evaluation and without waiting for those in flight.",
 ["schedules", "histories", "fault_sequences"],
 "every sequence of aborts and restarts at every instant of setups and runs, with every pattern of evaluations left in flight",
 "Tests have one abort with one population per process at most; what is left over from an aborted run shows only when it finishes during a later one.",
 ["ade/abort.py", "ade/de.py", "ade/population.py"],
 [("keyboard protocol and its holder", "abort.Keyboard, abort.KeyboardHolder, abort.restart/ignoreKeyboard"), ("shutdown trigger", "de.DifferentialEvolution.__init__/shutdown")],
 ["abort callbacks", "evaluation and report callbacks", "population contents", "completion of setup and run", "console connection"])

prop("C30", "Setup and generations keep evaluations running in parallel",
 "During setup, as long as not all members' evaluations have been started, there are as many in flight as the parallel limit allows. "
 "During a generation, challenges that do not depend on each other overlap: an evaluation that is slow holds up only those challenges whose members it involves. "
 "Report callbacks that take their time never hold up the evaluations of setup or of the generation under way.",
 ["schedules", "histories"],
 "every order and timing in which evaluations and report callbacks finish",
 "Tests compare total times of a few runs with fixed delays; losing the overlap in some orders only makes them slower.",
 ["ade/population.py", "ade/de.py", "ade/report.py"],
 [("setup's parallel limit", "population.Population._populate, Population.N_maxParallel"), ("locking of the members of a challenge only", "population.Population.lock, de.DifferentialEvolution.challenge"), ("reports not waited for in a challenge", "report.Reporter.__call__")],
 ["evaluation starts", "number of evaluations in flight"])

prop("C31", "Initial candidates are drawn as Latin hypercubes",
 "Unless uniform variates are asked for, the candidates of a setup are drawn as Latin hypercubes: with each parameter's range divided into as many equal parts as the population is to have members, of that many successive candidates, counted from the beginning of the setup and including those that fail the constraints or turn out invalid, exactly one lies in each part, for every parameter, in an order of its own; so no two of an incomplete rest lie in the same part. "
 "This holds for every setup of the population, each of which draws anew, whatever the order in which evaluations finish, and with blank members. With uniform variates each value is drawn independently over the whole range. "
 "Exactly the candidates that satisfy the constraints are evaluated, in the order they were drawn.",
 ["inputs", "schedules", "histories"],
 "every population size and number of parameters, order of completion, share of invalid and rejected candidates, repeated setups",
 "Tests look at the results of a single setup; where the drawing of candidates meets failing constraints and invalid results the pattern is lost without anything failing.",
 ["ade/population.py"],
 [("drawing of candidates", "population.Population.setup (refreshIV, getNextIV, getIndividual)"), ("scaling to the bounds", "population.ParameterManager.fromUnity")],
 ["vectors judged by constraints", "evaluation starts", "members"])

prop("C32", "Extracting the examples neither alters existing files nor leaves parts of files",
 "Extracting the example files (the ade-examples command, or the function of the package) leaves every file that was in the destination directory before as it was, whatever its contents, size or age, creates the directory if there is none, and when it returns normally every example (Python, C and text files with names in lower case) that wasn't there is, with exactly the package's contents. "
 "An extraction that fails or is killed at any point (full disk, failing file-system call, interrupt, crash) leaves no example file with part of its contents, and a later extraction completes what is missing. A broken console changes nothing of that.",
 ["crash_points", "fault_sequences", "histories"],
 "every byte position and file-system call at which an extraction can fail or be killed, every state of the destination directory, repeated extractions",
 "There are no tests of the extraction; a part of a file left behind is taken for an existing file by all later extractions.",
 ["ade/scripts/examples.py", "ade/__init__.py"],
 [("extraction by the command", "scripts.examples.extract"), ("extraction from Python", "ade.extract_examples")],
 ["contents of the destination directory before and after each extraction"])

prop("C33", "Crossover and weights follow the configured rate and range",
 "Each parameter of a challenger is mutated with the configured crossover rate, independently of the others, but for one, any of them with the same chance, that always is. "
 "With a range of F configured, each challenger has a weight of its own, the same for all its parameters, drawn uniformly over the range; with a single F it is always that one.",
 ["schedules", "histories", "configurations"],
 "every crossover rate, range of weights, number of parameters and members, every completion order over many generations",
 "Tests look at the mean number of mutated parameters and at the weights of the manager alone; parameters that are never the one always mutated, mutations in step, or weights shared by several challengers need the statistics of a run's challengers.",
 ["ade/de.py"],
 [("crossover", "de.DifferentialEvolution.crossover"), ("drawing of weights", "de.FManager.get")],
 ["vectors submitted for evaluation, members"])

prop("C34", "A full history gives up the most expendable of its records",
 "When the history is full, the record displaced by an addition is one of the two that are closest to each other of all records not of current members (as long as there are few enough for all pairs to be considered), as of the addition's turn: the sum of squared differences of SSE and values, each divided by its variance among those records, divided by the mean SSE of the two. "
 "Of the records that never were in the population the one displaced is of the closest pair of them; these count as closer than former members, hardly so while they are few, and much so if they are most of the records. "
 "This holds for every sequence of additions, removals from the population, purges and reloads, however they overlap with the background search.",
 ["schedules", "histories", "inputs"],
 "every interleaving and sequence of history operations up to the maximum of 40 records, reloads included",
 "Tests try the search by itself on a few rows; stale variances, rows that are gone or of members, and statuses lost by a reload only show in longer sequences, as a history that slowly loses what it is kept for.",
 ["ade/history.py"],
 [("search", "history.ClosestPairFinder.calcerator"), ("addition", "history.History.add"), ("end of membership", "history.History.notInPop"), ("reload", "history.History._initialize")],
 ["records given by queries after each operation"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
