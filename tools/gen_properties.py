#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line). Source of truth for the property texts."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
S="src/solver/"; G=S+"genetic/"; I=S+"improvement/"; R=I+"ruin_recreate/"
T="The only existing tests are five epsilon-comparison tests, one cooling-schedule test and a benchmark that runs one instance once and asserts nothing."

prop("C01","Recorded solutions are complete and feasible",
 "Every solution that the solver records as a new best, returns as its best, or writes to the solution file visits every customer of the instance exactly once and nothing else, and no route's total demand exceeds the vehicle capacity. This holds after every iteration of a run, for the plain and the decomposed algorithm, whatever the configuration, seed and random choices. (Instances in which every single demand fits a vehicle.)",
 ["inputs","histories","configurations"],"all instances, configurations, random choices and iteration counts",
 T+" Nothing inspects a solution's customers or loads.",
 [S+"history.rs",G+"genetic.rs",G+"decomposition.rs",G+"split.rs",I+"local_search.rs",R+"mod.rs"],
 [("update_best gates on feasibility",G+"genetic.rs"),("RuinRecreate::update_best gates on feasibility",R+"mod.rs"),("permutation-preserving operators","split, local search, R&R, crossover, decomposition")],
 [("SearchHistory.history","sequence of recorded best solutions",S+"history.rs")],["SearchHistory::entries after every iterate()","solution file"])
prop("C02","Reported cost is the true cost",
 "The cost attached to every recorded solution equals the total length of its routes including both depot legs, under the distance convention in force. More generally, evaluating any assignment of customers to ordered routes yields per route the travelled distance and the load minus capacity, in total the distance plus penalty times the summed excess load, the correct feasibility verdict, and for every customer its predecessor and successor.",
 ["inputs","histories"],"all instances, all assignments of customers to ordered routes (empty routes anywhere), all penalties, all recorded solutions of all runs",
 T+" No test compares a cost with anything.",
 [S+"evaluate.rs",S+"history.rs",G+"individual.rs"],
 [("SolutionEvaluation::evaluate",S+"evaluate.rs"),("route_cost",S+"evaluate.rs")],
 [("SolutionEvaluation","cost, feasibility, per-route figures, neighbours",S+"evaluate.rs")],["Individual::evaluate","HistoryEntry.solution.cost"])
prop("C03","The best solution found is never lost",
 "Over a run the costs of the recorded best solutions strictly decrease, and the last recorded one is the one delivered. After every iteration no feasible individual kept in the population, and no feasible candidate that just finished its improvement, is cheaper than the recorded best, and the algorithm's own best-solution field agrees with the best it recorded; this also holds across penalty changes, repair, elite education and population restarts.",
 ["histories","inputs","configurations"],"all instances, configurations (restart, repair, elite education, R&R on/off) and random choices, at every iteration",
 T+" The history of bests is never read by a test.",
 [G+"genetic.rs",S+"history.rs",R+"mod.rs",G+"population.rs"],
 [("update_best",G+"genetic.rs"),("RuinRecreate::update_best",R+"mod.rs"),("SearchHistory::add",S+"history.rs")],
 [("best_solution / current_best_solution_cost / SearchHistory.best_cost","three records of the best",G+"genetic.rs")],["SearchHistory::entries","GeneticAlgorithm.best_solution","Population"])
prop("C04","One distance function everywhere",
 "The distance between two locations is the Euclidean distance of their coordinates, rounded to the nearest integer exactly when rounding is on, or the given matrix entry for explicit-matrix instances (rounded likewise); it is symmetric and zero on the diagonal. The same values are returned whether distances are precomputed or computed on demand (any size limit), one at a time or in row-major runs, and in every sub-problem built from a customer mapping, including sub-problems of sub-problems; the reported maximum of a precomputed matrix is the true maximum.",
 ["inputs","configurations"],"all coordinate sets, roundings, size limits, explicit matrices, mappings and nested mappings",
 T,
 ["src/models/matrix.rs","src/models/problem.rs",S+"context.rs"],
 [("DistanceMatrixBuilder::build / DistanceMatrix::get / get_vec / from_mapping","src/models/matrix.rs")],
 [("DistanceMatrix.storage","precomputed distances","src/models/matrix.rs")],["DistanceMatrix::get, get_vec, max"])
prop("C05","Neighbour lists hold the nearest customers",
 "For every location the neighbour list consists of distinct customers other than itself, never the depot, ordered by non-decreasing distance, and no omitted customer is closer than a listed one; it has min(200, number of customers - 1) entries (the depot's list too). The local search considers min(configured granularity, list length) entries of it, and running a local search never changes which customers are in any list.",
 ["inputs","configurations"],"all instances from 1 customer up to beyond the 200-entry limit, all granularities, sub-problems",
 T+" In particular no test uses an instance smaller than the granularity, where list rows would run into each other.",
 ["src/models/matrix.rs",I+"local_search.rs"],
 [("CorrelationMatrix::new / top_slice","src/models/matrix.rs"),("granularity clamp in LocalSearch::new",I+"local_search.rs")],
 [("CorrelationMatrix.storage","row-major neighbour lists","src/models/matrix.rs")],["CorrelationMatrix::get","LocalSearch.correlation"])
prop("C06","Instance files are read faithfully or rejected",
 "Reading an instance file yields exactly the capacity, the coordinates and demands of its nodes in file order and, for explicit lower-row matrices, exactly the listed distances for both directions, independent of spacing around colons, tabs, leading blanks, trailing blanks, line-ending style, number format, header order and extra header lines. A file that lacks a required section or header, uses an unsupported edge-weight type or format, or is cut off inside a section is rejected instead of being solved as a different instance. The same holds however the operating system delivers the file: short or interrupted reads change nothing, a read error ends the run with an error instead of continuing with part of the file, and a path that is not a readable file (a directory, an empty device) is rejected instead of keeping the program busy for ever.",
 ["inputs","crash_points","fault_sequences"],"all well-formed layout variants of small instances, every shipped instance file, every line-truncation of a file, every division of the file into reads, and a fault at every read",
 T+" The only file ever parsed by a test run is X-n101-k25 in one layout, and its content is not compared.",
 ["src/utils/parser.rs","src/models/problem.rs","src/models/matrix.rs"],
 [("ProblemParser::parse","src/utils/parser.rs")],[],["ProblemParser.problem, .matrix","Context.problem"])
prop("C07","Settings take effect with the documented precedence",
 "Every setting has its built-in default unless the YAML file sets it, in which case exactly that setting changes and unknown keys are ignored; command-line options that are actually given override the file, and options that are not given leave the file's value in place. In particular the time limit, the rounding switch (both true and false), the limit on generations without improvement after which the population restarts, the instance path and the output path used by a run follow this order; without any output path the solution goes to output.sol. The DIMACS start script passes instance, rounding and time limit on.",
 ["configurations"],"all combinations of given/omitted command-line options and file settings; every single key and pair of keys of the file",
 T+" No test parses a command line or compares a loaded configuration.",
 ["src/config.rs","src/cli.rs","src/main.rs","config.yml"],
 [("Config::update / update_from_args","src/config.rs"),("Args::parse","src/cli.rs")],[],["Config fields after load + update_from_args","behaviour of the binary"])
prop("C08","The solution file is the last recorded best, in CVRPLIB form",
 "The solution written lists the non-empty routes of the last recorded best solution, numbered consecutively from 1 in the form 'Route #k: customers', customers numbered 1..n as in CVRPLIB, followed by one line 'Cost c' with the cost rounded to the nearest integer, half upwards. Writing replaces any previous content of the file completely, nothing is written without an output path, and if no feasible solution was recorded the file is empty. Short and interrupted writes do not change what the file ends up containing, and a write that fails, or a path that cannot be written, is reported instead of passing as success.",
 ["inputs","histories","fault_sequences"],"all solutions (empty routes anywhere), costs, earlier file contents and histories of recorded bests, every division of the output into writes, and a fault at every write",
 T+" No test writes or reads a solution file.",
 [S+"history.rs","src/utils/serializer.rs","src/main.rs"],
 [("impl Display for HistoricSolution",S+"history.rs"),("write_solution_file","src/utils/serializer.rs")],[],["content of the output file"])
prop("C09","Split finds the cheapest cut of a giant tour",
 "For a given order of all customers, the split step returns consecutive routes whose concatenation is that order (up to the order of routes), pads with empty routes up to the fleet limit, and its penalized cost is the minimum over all ways of cutting the order into at most K routes, where K is the allowed number of routes (at least the bin-packing lower bound). With the quadratic variant the minimum is over routes within its load bound whenever such a cut exists; no customer is ever lost with either variant, and earlier runs with the same object never influence the result.",
 ["inputs","histories","configurations"],"all small instances, all customer orders, all route limits, penalties, both algorithms, all sequences of reuse",
 T+" The benchmark runs split but cannot notice a suboptimal or wrong cut.",
 [G+"split.rs"],
 [("Split::split (monotone deque / Bellman)",G+"split.rs"),("Split::split_limited_fleet",G+"split.rs")],
 [("Split.path_cost / predecessors","shortest-path tables reused between runs",G+"split.rs")],["Individual.phenotype / penalized_cost after Split::run"])
prop("C10","Predicted move gains are the real gains",
 "For every local-search move and every pair of nodes it can be applied to, in every solution, the predicted change in penalized cost equals the actual change when the move is carried out, and a move that cannot be applied is never predicted to improve. Carrying out an improving move keeps every customer exactly once, does what the move's name says (relocate, swap, 2-opt within or between routes), and leaves all cached route data (loads, distances, positions, links in both directions, sectors, empty-route set) equal to a fresh recomputation.",
 ["inputs","histories"],"all solutions of small instances, all moves, all node pairs including depots and empty routes, all penalties",
 T,
 [I+"moves/relocation.rs",I+"moves/swap.rs",I+"moves/two_opt.rs",I+"local_search.rs",I+"linked_list.rs"],
 [("Move::delta / Move::perform",I+"moves"),("LocalSearch::update_route",I+"local_search.rs"),("LinkNode reversal helpers",I+"linked_list.rs")],
 [("LinkNode/LinkRoute","linked routes with cached cumulative data",I+"linked_list.rs")],["delta vs evaluated cost","linked lists after perform"])
prop("C11","Local search descends to a genuine local optimum",
 "A local search run keeps every customer exactly once, never increases the penalized cost under the penalty it was given, ends, and leaves the individual's order, routes and evaluation consistent. On return no enabled relocate, swap or 2-opt move between a customer and any of its considered neighbours, or with the start of a route whose first customer is such a neighbour, improves the cost, nor (with exact Euclidean distances) does any SWAP* exchange between routes with overlapping sectors; and if the run changed the solution, opening an empty route does not improve it either.",
 ["inputs","histories","configurations"],"all start solutions of small instances, all penalties and penalty multipliers, all move subsets toggled, random orders",
 T,
 [I+"local_search.rs",I+"moves/mod.rs"],
 [("LocalSearch::search with last-tested/last-modified pruning",I+"local_search.rs"),("Moves::new",I+"moves/mod.rs")],
 [("last_tested / last_modified / move_count","what may be skipped as already tested",I+"local_search.rs")],["LocalSearch::run result"])
prop("C12","SWAP* applies the best exchange and never a worsening one",
 "Given two routes, the SWAP* step either reports no improvement and leaves the routes untouched, or applies an exchange (or one-way relocation) of customers between them that lowers the penalized cost by exactly the amount predicted. With exact Euclidean distances the applied change is the best of all exchanges of one customer of each route, each reinserted at its best place, and of all one-way relocations; this stays true when other moves or other SWAP* steps were applied before.",
 ["inputs","histories"],"all solutions of small instances with two and three routes, all pairs of routes, all short sequences of SWAP* steps and other moves",
 T,
 [I+"moves/swap_star.rs",I+"local_search.rs",I+"preprocess.rs"],
 [("SwapStar::run",I+"moves/swap_star.rs"),("three-best-insertions cache with last_calculated",I+"preprocess.rs"),("cheapest_insert_and_removal",I+"local_search.rs")],
 [("best_inserts","cached three best insertion places per route and customer",I+"local_search.rs")],["SwapStar::run result and routes"])
prop("C13","Route sectors cover their customers and overlap correctly",
 "The polar angle of a node is its direction from the depot scaled to 0..65535. A route's circle sector, built by extending it with the angles of its customers in any order, contains the angle of each of them, and two sectors are reported as overlapping exactly when some angle lies in both, including across the wrap-around and at angle 0.",
 ["inputs"],"all sequences of angles over a boundary alphabet, all pairs of sectors, all small coordinate offsets",
 T,
 ["src/models/circle_sector.rs","src/models/problem.rs",I+"local_search.rs"],
 [("CircleSector::extend / is_enclosed / overlaps","src/models/circle_sector.rs"),("Problem::get_angle","src/models/problem.rs")],[],["CircleSector","LinkRoute.sector"])
prop("C14","Ruin and recreate conserve customers and bookkeeping",
 "A ruin step removes customers around one drawn from all, each equally likely: at least one (if there are two or more), a number of strings (one per route) drawn evenly from what the configured average allows (4c/(1+l)-1, for strings of l customers at most), each of a length drawn evenly up to the least of the configured maximum, the average route and its own route; it keeps the order of those that stay, and lists exactly the removed ones as unassigned. A recreate step takes the unassigned customers in random order (4 times in 11), by decreasing demand (4), from the farthest from the depot on (2) or from the closest (1), and puts each back at the cheapest allowed position given the routes at that moment (first choice: changed routes with room for it; otherwise any route at penalized cost). After every step the tracked distance and overload equal a fresh recomputation, and after a recreate step the tracked cost and customer locations do so too; rounding errors do not add up over the steps of a search.",
 ["inputs","histories","configurations"],"all solutions of small instances and all random choices of a ruin and a recreate step, and sequences of steps",
 T,
 [R+"ruin.rs",R+"recreate.rs",R+"node.rs",R+"mod.rs"],
 [("AdjacentStringRemoval",R+"ruin.rs"),("GreedyBlink",R+"recreate.rs"),("Route::add/remove",R+"node.rs")],
 [("RuinRecreateSolution","routes with incremental distance/overload, locations, unassigned",R+"mod.rs")],["RuinRecreateSolution after each step"])
prop("C15","R&R search anneals by the rules and keeps its best",
 "The R&R search accepts a candidate exactly when its cost is below the current cost minus temperature times ln(u) for the drawn u, starting from the solution it was loaded with, continues from the accepted or unchanged solution, performs exactly the scheduled number of steps, and the solution it hands back is the cheapest it has accepted, never costlier than the one loaded; a feasible solution that becomes its cheapest and beats the best recorded so far in the run is recorded. The temperature follows T0*(exp(-2t) - t*exp(-2)) over the elapsed fraction t of iterations or time, and resetting a schedule makes it behave like a new one.",
 ["histories","inputs","schedules"],"all random choices of short searches from all small solutions; all schedule lengths up to a bound; all clock readings at update points",
 "One unit test samples three points of one iteration schedule; the time schedule's test is unstable and asserts constants. The search loop is not tested.",
 [R+"mod.rs",R+"schedule.rs"],
 [("RuinRecreate::load/search/get_best_solution",R+"mod.rs"),("IterationSchedule / TimeSchedule",R+"schedule.rs")],
 [("solution/current_solution/best_solution","state of the annealing",R+"mod.rs")],["RuinRecreate fields","Acceptance trait"])
prop("C16","Population keeps its invariants under any sequence of additions",
 "After any sequence of additions each subpopulation holds only individuals of its feasibility class, sorted by cost, below its maximum size; a newcomer identical to a member is not kept, and when the maximum size is reached it is cut back to the minimum size by repeatedly removing the worst non-best individual, clones first, then highest biased fitness, so its cheapest individual survives. Pairwise diversity records match the members exactly, and each biased fitness is the cost rank plus (1 - elites/size) times the rank by average distance to the closest members (cost rank only, if all are elites).",
 ["histories","inputs","configurations"],"all sequences of additions up to a depth over small pools, all size parameters",
 T,
 [G+"population.rs",G+"individual.rs"],
 [("SubPopulation::add_individual / natural_selection / update_fitness",G+"population.rs")],
 [("SubPopulation.population, diversity","members by cost, distances",G+"population.rs")],["SubPopulation fields after each addition"])
prop("C17","Selection and crossover produce proper offspring",
 "Parent selection draws the configured number of contestants, any member of both subpopulations being possible, and returns one with the lowest biased fitness among those drawn. The offspring of two parents is a permutation of all customers that has the first parent's customers at the positions of the (possibly wrapping) crossover zone, and elsewhere the remaining customers in the cyclic order in which the second parent visits them; every zone of two or more positions is possible.",
 ["inputs","histories"],"all draws for all small populations; all pairs of parent permutations and all crossover zones for small n",
 T,
 [G+"population.rs",G+"genetic.rs"],
 [("Population::tournament",G+"population.rs"),("crossover_ox",G+"genetic.rs")],[],["Population::get_parent","GeneticAlgorithm.child after an iteration without improvement operators"])
prop("C18","Broken-pairs distance measures shared adjacencies",
 "The diversity distance from one solution to another counts the customers whose successor in the first is not adjacent to them in the second, plus the customers that start a route in the first but neither start nor end one in the second. It does not depend on the order of routes, on empty routes or on the direction in which the second solution's routes are driven, and it is zero for equal solutions and for solutions differing only in route order and direction.",
 ["inputs"],"all pairs of solutions of small instances with any placement of empty routes",
 T,
 [G+"individual.rs",S+"evaluate.rs"],
 [("calculate_broken_pairs_distance",G+"individual.rs")],[],["Individual::calculate_broken_pairs_distance"])
prop("C19","Penalty adaptation steers towards the feasibility target",
 "The capacity penalty starts at max distance / max demand limited to [0.0001, 10000] (100 if no maximum distance is known). At each update interval it is multiplied by the increase factor when the fraction of feasible individuals among the last 100 recorded (a new population counts as having recorded 100 feasible ones) is more than 5 points below the target, by the decrease factor when more than 5 points above, and left alone otherwise, always within [0.0001, 10000000]; every infeasible individual is then re-evaluated with the new penalty and the infeasible subpopulation is in cost order again. During elite education the penalty moves likewise with the feasibility of the current solution, all tracked costs follow, and the initial penalty is restored afterwards.",
 ["histories","configurations"],"all feasibility histories (by count and by sequence up to a depth), targets, factors, penalties at and beyond the bounds",
 T,
 [G+"genetic.rs",S+"context.rs",R+"mod.rs",G+"population.rs"],
 [("update_penalty",G+"genetic.rs"),("Context::reset_penalty",S+"context.rs"),("RuinRecreate::search penalty update",R+"mod.rs")],
 [("config.penalty_capacity","current penalty","src/config.rs")],["Config.penalty_capacity","Population.infeasible after iterations"])
prop("C20","Runs stop when told to and not before",
 "A run ends at the first iteration boundary at which the elapsed time has reached the time limit or (genetic algorithm) the configured number of generations has been carried out, and not earlier; once ended, further iterations change nothing. The population is restarted at the end of the first generation that lies more than the configured number of generations after the last improvement or restart, never otherwise, and the restart rebuilds the configured number of initial individuals while the recorded best is kept.",
 ["histories","schedules","configurations"],"all iteration limits and all points of the run at which the clock passes the limit, in every phase; all restart limits",
 T,
 [S+"context.rs",S+"solver.rs",G+"genetic.rs",G+"decomposition.rs"],
 [("Context::terminate",S+"context.rs"),("Metaheuristic::iterate state machine",G+"genetic.rs")],
 [("Context.iteration","generations so far",S+"context.rs")],["terminated() after each iterate()"])
prop("C21","Deterministic mode is reproducible",
 "With the deterministic option on, two runs with the same seed, instance and settings that are ended by an iteration limit go through the same sequence of offspring and recorded solutions and deliver the same result, whatever the process, hash randomisation, wall-clock time, log level or earlier runs in the same process; this includes elite education by iterations, R&R and decomposition.",
 ["inputs","configurations","schedules"],"all seeds of a range x instances with many cost ties x configurations x environment randomness",
 T+" The benchmark runs deterministic mode but compares nothing.",
 ["src/utils/random.rs",S+"context.rs",R+"mod.rs",G+"decomposition.rs",I+"local_search.rs"],
 [("Random::from_seed / random_state","src/utils/random.rs")],
 [("Random.rng","the only permitted source of randomness","src/utils/random.rs")],["SearchHistory of repeated runs","output of repeated processes"])
prop("C22","Decomposition preserves the global solution",
 "Cutting a sub-problem out of a solution starts from a customer, each equally likely, takes whole routes only, no more of them than are needed for the configured minimum number of customers (or all reachable from its seed customer's neighbours), gives every taken customer its own index with its own demand, coordinates and distances, and leaves the other routes as they are. The sub-problem starts with the settings and the penalty in force, the fleet apart. Solving it leaves the settings and recorded solutions of the enclosing run alone. Merging back yields a complete solution with one route slot per vehicle whose cost is the untouched routes' cost plus the cost of the best solution found for the sub-problem (of the part cut out if no feasible one was found), hence not worse than before when the sub-problem solution did not get worse; this works for every number of routes the sub-problem ends up with.",
 ["inputs","histories","configurations"],"all solutions of small instances, all seed customers and decomposition sizes, all sub-solutions merged back; decomposed runs",
 T+" Decomposition needs 3000 customers by default and is never run by a test.",
 [G+"decomposition.rs",S+"context.rs","src/models/problem.rs","src/models/matrix.rs"],
 [("Decomposition::new/run/finish",G+"decomposition.rs"),("Context::from_mapping",S+"context.rs")],
 [("Decomposition.mapping","sub index to global customer",G+"decomposition.rs")],["Decomposition fields","global Individual after finish"])
prop("C23","No crash, hang or out-of-bounds access on any valid input",
 "On every valid instance (one or more customers, each demand within the capacity, coincident locations and zero demands included) and every sensible configuration, loading and solving neither panics, nor hangs, nor reads or writes memory outside the data structures involved, nor breaks the memory allocator's contract (a request of size zero is undefined behaviour).",
 ["inputs","configurations","histories"],"all instance sizes from 1 customer, degenerate geometries and demand patterns x configuration extremes (granularity above the number of customers, distances on demand, each operator alone, tiny populations, decomposition on)",
 T+" One ordinary 100-customer instance is run; small and degenerate ones, which the raw-pointer code is sensitive to, never.",
 ["src/models/matrix.rs",I+"local_search.rs",I+"linked_list.rs",G+"genetic.rs",R+"ruin.rs",G+"decomposition.rs"],
 [("bounds implied by construction of Matrix, CorrelationMatrix and linked lists","src/models/matrix.rs")],[],["AddressSanitizer, panics and a step horizon during exhaustive runs"])
prop("C24","DIMACS mode streams exactly the improving solutions",
 "Built with the dimacs feature, a run's standard output consists of nothing but the recorded best solutions in the order found, each complete in CVRPLIB form with strictly decreasing cost, for the plain and the decomposed algorithm; each is printed by the time the iteration that found it ends, and the last one printed equals the solution file; logging does not change that. Without the feature no solution is printed to standard output.",
 ["histories","inputs","configurations"],"all small instances x seeds x algorithm choices, parsed output streams",
 T+" The feature is only type-checked.",
 [S+"history.rs",G+"decomposition.rs",S+"context.rs","src/main.rs"],
 [("SearchHistory::add / log_new_best",S+"history.rs")],[],["standard output of the binary"])
prop("C25","The fleet limit admits a feasible solution",
 "The number of routes the solver allows itself is at least the bin-packing lower bound and at least the smallest number of vehicles with which all demands can be served, so every instance whose single demands fit the capacity has a feasible solution within the limit; on instances where it matters little it is the lower bound plus 20 percent plus 2, rounded up.",
 ["inputs"],"all multisets of demands over small capacities, and worst-case families of large items",
 T+" The benchmark instance has small items.",
 [S+"context.rs"],
 [("initial_num_vehicles / vehicle_lower_bound",S+"context.rs")],
 [("config.num_vehicles","route slots of every data structure","src/config.rs")],["Config.num_vehicles after Context::new"])
prop("C26","Search quality on large benchmark instances",
 "Given the documented time budgets the solver reaches solutions within a small gap of the best known values of the CVRPLIB instances.",
 ["inputs"],"all benchmark instances and seeds, at full scale",
 "The benchmark measures speed only.",
 [G+"genetic.rs"],[("HGS with R&R",G+"genetic.rs")],[],["cost versus best known solution"])
prop("C27","The browser interface solves the problem it is given",
 "The WebAssembly solver object solves exactly the nodes, demands and capacity that were added to it, and returns each improving solution once.",
 ["inputs","histories"],"all sequences of calls on the browser-facing object",
 "The module is behind a feature that no test builds.",
 ["src/wasm/mod.rs"],[("wasm::Solver","src/wasm/mod.rs")],[],["values returned by iterate()"])
prop("C28","Generations follow the configured plan",
 "Every individual is made and educated as configured: initial ones are random orders split with the whole fleet, offspring of later generations are split with at most as many routes as their first parent uses; local search runs exactly when it is enabled; ruin and recreate runs exactly when it is enabled and the number drawn is below its probability, for its factor times the number of customers steps from its start temperature; an infeasible result is repaired with its probability by a local search at ten times the penalty, a feasible repair joins the population additionally while the unrepaired individual goes on, and every finished individual joins the population and its feasibility record. Elite education precedes the initial individuals of every start exactly when enabled and the instance has more customers than its size limit, and its result joins the population. The decomposed algorithm is used exactly from the configured number of customers on; it starts from one individual educated at a million times the penalty and polished by rounds of ruin and recreate until these stop improving, the penalty being as before afterwards; every later iteration cuts out a sub-problem, puts it through 2000 generations without elite education that start with the part cut out besides the initial individuals (not at all if the vehicles left cannot carry it), merges the best found and polishes the result by 100000 steps of ruin and recreate.",
 ["histories","inputs","configurations"],"all instances, configurations and random choices, after every iteration",
 T+" Nothing looks at what a generation does.",
 [G+"genetic.rs",G+"decomposition.rs","src/main.rs",R+"mod.rs"],
 [("iterate / educate / create_initial_individual",G+"genetic.rs"),("create_global_solution",G+"decomposition.rs"),("should_decompose","src/main.rs")],
 [("GeneticAlgorithm","child, population, penalty, history",G+"genetic.rs")],["GeneticAlgorithm.child, .population","SearchHistory","Config.penalty_capacity"])
prop("C29","Time stamps tell when a solution was found",
 "Every recorded best solution and every message of a run carries the time that had passed between the start given to the run and the moment it was recorded: stamps never lie before the iteration that produced them began or after it ended, and never decrease. The elapsed time of a run, in every unit it is offered in, counts from that start, and so does the elapsed time of every sub-problem and of sub-problems of sub-problems.",
 ["histories","schedules"],"all runs under all clock courses",
 T+" No test reads a time stamp.",
 [S+"history.rs",S+"context.rs"],
 [("SearchHistory::add / add_message",S+"history.rs"),("Context::elapsed / from_mapping",S+"context.rs")],
 [("SearchHistory.start_time","start of the run",S+"history.rs")],["HistoryEntry.timestamp","HistoryMessage.timestamp","Context::elapsed"])
prop("C30","Comparisons with tolerance are consistent",
 "All decisions of the solver compare costs and loads with one tolerance of 0.000001: a number is less (greater) than another exactly when it is by more than the tolerance, less-or-equal (greater-or-equal) exactly when it does not exceed (fall below) the other by the tolerance, equal exactly when the two differ by less than the tolerance. Hence exchanging the two numbers mirrors every answer, no two answers contradict each other, and infinities, which stand for 'no solution yet', order above and below every number.",
 ["inputs"],"all pairs of a boundary alphabet of magnitudes and offsets, including neighbouring floating-point numbers around the tolerance and infinities",
 "Unit tests compare 10.0 with seven numbers.",
 ["src/utils/comparison.rs"],[("FloatCompare for f64","src/utils/comparison.rs")],[],["results of the five comparisons"])
prop("C31","Random draws cover exactly their range",
 "A number drawn from a range lies in it (the upper end excluded) and each is equally likely; a drawn real lies in [0, 1); shuffling permutes the elements, each order equally likely; sampling k elements gives k different ones of the collection, each ordered choice equally likely. Equal seeds give equal courses, a generator continues rather than repeats, resetting a seeded generator starts its course over, clones of equal generators are equal, and the hash keys of a seeded generator depend on the seed alone.",
 ["inputs","histories"],"all results of the underlying generator for all small ranges and collections; thousands of seeds",
 "No test draws a number.",
 ["src/utils/random.rs"],[("Random","src/utils/random.rs")],[("Random.rng, Random.seed","the only source of randomness","src/utils/random.rs")],["drawn values"])
prop("C32","Solvers are independent of each other and of where they live",
 "Any number of solvers can live in one process, on one thread or several, and be built, advanced and dropped in any order or at once: each goes through exactly the course it would go through alone. A solver's context and algorithm may be moved in memory between any two of its steps, as the program does when it hands both to Solver, without changing its course.",
 ["schedules","histories","configurations"],"all interleavings of the steps of several solvers, all sets of points at which one is moved",
 "The one benchmark solver is alone and moves once.",
 [R+"mod.rs",I+"local_search.rs",G+"genetic.rs",S+"context.rs",S+"solver.rs"],
 [("raw references to the context refreshed before use",R+"mod.rs"),("LocalSearch::run",I+"local_search.rs"),("Solver::new / run",S+"solver.rs")],
 [("Context","one per solver, no global state",S+"context.rs")],["course of each solver, step by step","next random draw"])
prop("C33","Progress figures and announcements tell what happens",
 "The statistics offered about a population are those of its members at that moment: its size and best cost, the average cost and the average diversity (broken-pairs distance to as many closest members) of its best min_population_size members, and the feasible fraction of the last 100 recorded individuals. The progress line (debug log) is written with the first generation of every start, after elite education and then every log_interval generations, and carries elapsed time, generation, generations since the last improvement, these statistics for both subpopulations and the penalty. Each new best is announced exactly once, in the message list and in the log, with its cost, and each restart exactly once.",
 ["histories","configurations"],"all sequences of additions to small populations, every iteration of explored runs",
 "No test looks at statistics, messages or log lines.",
 [G+"population.rs",G+"genetic.rs",S+"history.rs"],
 [("get_diversity / get_average_cost / get_best_cost / history_fraction",G+"population.rs"),("log / update_best / reset",G+"genetic.rs"),("add / add_message",S+"history.rs")],
 [("SearchHistory.messages","announcements of the run",S+"history.rs"),("next_log_interval","generation of the next progress line",G+"genetic.rs")],["log records","SearchHistory.messages","GeneticAlgorithm.diversity"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"])
        f.write(json.dumps(p)+"\n")
print(len(P),"properties")
