//! Texts for the evidence files: what each engine enumerates, and what is assumed.
fn engine(e: &str) -> &'static str {
    match e {
        "compare" => "compare: 143 (thorough 383) numbers against a grid of 12000 (120000) neighbours in steps of 1e-8, 1e-7, 0.37 and single ulps, and infinities, in both directions and negated.",
        "random" => "random: every sequence of draws of shuffling up to 8 (thorough 9) elements, of every range up to 15 (40) wide, of every sample of up to 7 (8) elements, with probabilities; 4000 (32000) seeds, resets, clones, hash keys.",
        "eval" => "eval: every assignment of 1..6 (thorough 7) customers to 1..4 ordered routes (empty ones anywhere) of every instance shape under 5 penalties; every ordered pair of solutions for the diversity distance (up to 5 customers/2 routes, thorough 5/3 and 4/4); fixed larger solutions up to 230 customers.",
        "matrix" => "matrix: every instance shape of 1..5 (thorough 6) customers x rounding x 6 size limits x every ordered customer mapping and mapping of a mapping; all placements of two customers on a 6x6 grid; 12..260 (thorough 700) customers around the 200-entry neighbour limit.",
        "sector" => "sector: every sequence of up to 4 (thorough 5) angles over a boundary alphabet, every pair of sectors over it, every small coordinate offset.",
        "split" => "split: every order of 1..6 (thorough 7) customers x every route limit x penalties x both algorithms, against brute force over all cuts; every short sequence of reuse of one object.",
        "moves" => "moves: every route assignment of up to 5 (thorough 7) customers to up to 3 (4) routes, every move at every pair of nodes including depots and empty routes, performed and compared with a fresh recomputation; fixed larger solutions.",
        "swapstar" => "swapstar: every two-route solution of up to 6 (thorough 7) customers; every sequence of SWAP* steps and improving moves up to depth 3 (thorough 4) from every three-route solution of 4..5 (6) customers; against brute force over all exchanges.",
        "ls" => "ls: local search from every start of up to 5 (thorough 6) customers x move toggles x granularities x penalties x choice streams, every single (thorough double) deviation from a default choice sequence within the horizon; fixed larger starts up to 210 customers.",
        "rr" => "rr: every draw of a ruin and of a recreate step (bounded deviations from n=3) from every solution of up to 4 (thorough 5) customers, every subset of removed customers; bounded-deviation searches replayed against an abstract annealer; every operation sequence of both schedules up to a depth, every step of schedules of up to 200000 (1100000) steps and of time schedules of half a second up to 5e9 s; routes and fleets of 330.",
        "population" => "population: every sequence of additions up to the depth over pools of individuals against an abstract population; every draw of a tournament; every pair of parents and every crossover zone; every count and short history of feasibility for the penalty.",
        "ga" => "ga: the genetic algorithm's iterations under a controlled oracle (every single/double deviation from default choice sequences within the horizon) and a virtual clock passing the limit at every reading, for all small instance shapes and a table of configurations, checked after each iteration.",
        "pipeline" => "pipeline: whole runs of the genetic algorithm (every single deviation from default choice sequences within a horizon of 24, thorough 150 choices, customers 1..5, thorough 6, a table of configurations) and of the decomposed algorithm in lock-step with an abstract machine that uses the same building blocks by the rules; the program around the decomposition threshold.",
        "stamps" => "stamps: runs of both algorithms and sub-problems under a virtual clock that advances per reading (four start offset/step pairs) for every small instance shape and a table of configurations, every record, message and elapsed-time query judged.",
        "parse" => "parse: every combination of layout variants of small instance files, every line truncation, every missing/foreign header, and every shipped instance file against an independent reader; bytes that are no text in every line; every division into reads, an interruption or an error at every read; paths that are no files.",
        "serial" => "serial: every solution of up to 4 (thorough 5) customers and up to 4 route slots, sequences of recorded bests, earlier file contents, costs around rounding points; short, interrupted and failing writes at every call; paths that cannot be written.",
        "fleet" => "fleet: every multiset of demands up to 8..14 (thorough 10..20) items over capacities 1..9 (thorough 12) against an exact bin-packing solver; families of up to 60 equal items.",
        "config" => "config: every setting alone and in every pair (thorough: triple) of both orders, unknown keys of all shapes, every combination of given/omitted command-line options and file settings through the real argument parser, runs of the real program and of the DIMACS script.",
        "decomp" => "decomp: every solution of up to 5 customers x every minimum size x every seed customer x spare routes, every sub-solution merged back (up to 4 customers, thorough 5), bounded sub-problem runs; fixed larger solutions up to 260 customers.",
        "drun" => "drun: whole decomposed runs of small instances with a virtual clock that passes the limit at enumerated readings, checked at every iteration boundary.",
        "determinism" => "determinism: instance shapes x configurations x seeds, each run compared step by step across every listed environment (hash keys, clock speed and pauses, earlier runs, memory contents) and across real processes.",
        "safety" => "safety: degenerate instance shapes of 1..5 (thorough 9) customers x extreme settings alone and in pairs, both algorithms, several choice policies, with debug assertions, overflow checks and AddressSanitizer.",
        "dimacs" => "dimacs: output streams of child processes of both builds for small instances x configurations x every clock-reading at which time runs out (horizon 20, thorough 60), and the real programs.",
        "independent" => "independent: every interleaving of the steps (context built, algorithm built, 3..4 iteration batches, dropped) of two solvers (thorough: three) of every instance shape and four configurations, the same in turns on threads (quick: every fifth) and freely in parallel; every set of up to 7 (8) points at which the context, the algorithm or both are moved, others of the same size left in their place; runs handed to Solver.",
        "progress" => "progress: every sequence of up to 4 (thorough 5) additions from pools of up to 11 (12) individuals under four size settings; runs of 15 configurations x 5 line intervals x streams for every instance shape of up to 5 (6) customers and with the shipped sizes, judged after every iteration.",
        "program" => "program: the real program, instance file to solution file, on written-out small and mid-sized instances x configurations and on the shipped instance with the shipped configuration.",
        _ => "",
    }
}

pub fn bounds(prop: &str) -> String {
    let names: Vec<&str> = super::all().iter().filter(|e| e.tags.contains(&prop)).map(|e| e.name).collect();
    names.iter().map(|n| engine(n)).collect::<Vec<_>>().join(" ")
}

pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "Exhaustive within the stated bounds only; units named large/long/chain/shipped replay fixed scenarios beyond them.",
        "The implementation itself is executed; fastrand and ahash are replaced by stand-ins that take every random draw from the explorer, and the monotonic clock can be virtual.",
        "Reference models in harness/src/refm.rs are trusted.",
    ];
    match prop {
        "C06" | "C07" | "C08" => v.push("File-system calls of the operating system other than read and write work; faults of those two are enumerated."),
        "C24" => v.push("File-system calls of the operating system work."),
        "C11" | "C12" => v.push("Optimality is judged with a tolerance of 1e-6, the solver's own; SWAP* optimality only with exact Euclidean distances."),
        "C15" => v.push("Drawn reals come from a five-value alphabet or a fixed stream."),
        "C21" => v.push("Only the listed sources of nondeterminism are varied."),
        "C23" => v.push("Uninitialised reads that stay inside allocations are not detected (no MemorySanitizer runtime for Rust std offline)."),
        _ => {}
    }
    v
}
