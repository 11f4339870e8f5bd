#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
E="Stateless explicit-state model checking of the real code: exhaustive enumeration within bounds; "
T={
"C01":("explored runs of both algorithms under a controlled random oracle and virtual clock, every recorded solution and file judged","Whole runs are bounded by deviations from default choice sequences, not all choice sequences."),
"C02":("every assignment of customers to ordered routes, plus every recorded solution of explored runs, against a reference evaluator","Complete for up to 6 (thorough 7) customers; recorded costs on explored runs."),
"C03":("explored runs, abstract record of the best compared after every iteration","Bounded deviations from default choice sequences on small instances; fixed longer runs."),
"C04":("all small instances x size limits x nested mappings, every distance compared with a reference function","Complete within the bounds; fixed larger instances up to 700 customers."),
"C05":("all small instances and mappings, every neighbour list judged; lists compared again after explored local searches","Complete within the bounds; fixed larger instances around the 200-entry limit."),
"C06":("every layout variant, line truncation and header variant of small files, all shipped files, against an independent reader","Layout variants are a stated finite grammar."),
"C07":("every combination of given/omitted options and settings, through the real argument parser and program","Values come from small alternative sets per setting."),
"C08":("every small solution, history and earlier file content written and read back","Complete for up to 4 (thorough 5) customers."),
"C09":("every customer order, route limit, penalty and reuse sequence, against brute force over all cuts","Complete for up to 6 (thorough 7) customers; fixed larger tours against dynamic programming."),
"C10":("every small solution x move x node pair: prediction compared with the evaluated result, links with a recomputation","Complete for up to 5 (thorough 7) customers and 4 routes."),
"C11":("local search from every small start under explored random orders, result checked by brute force for remaining improving moves","Orders explored by bounded deviations; optimality of SWAP* judged for exact Euclidean distances only."),
"C12":("every two-route solution and every bounded sequence of steps from three-route solutions, against brute force","Complete within the bounds."),
"C13":("every angle sequence, sector pair and coordinate offset over boundary alphabets, against interval arithmetic","Complete over the stated alphabets."),
"C14":("every random choice of ruin and recreate steps from every small solution, against a reference step relation","Complete draws for n<=2, bounded deviations above; reals from a small alphabet."),
"C15":("explored searches replayed step by step against an abstract annealer; all schedule operation sequences","Bounded deviations; temperature formula checked at every step."),
"C16":("every sequence of additions up to a depth over pools of individuals, lock-step with an abstract population","Pools of up to all solutions of small instances."),
"C17":("every draw of every tournament and every parent pair and crossover zone, against reference definitions","Complete for small n."),
"C18":("every ordered pair of small solutions, against the definition","Complete within the bounds."),
"C19":("every feasibility count and bounded history, lock-step with an abstract penalty rule","Complete counts; histories up to a depth."),
"C20":("every clock reading and iteration limit at which a run may be told to stop, lock-step with an abstract run","The clock is virtual and advances per reading."),
"C21":("every environment of a stated set for every enumerated run, step-by-step comparison, also across processes","Only the listed sources of nondeterminism are varied."),
"C22":("every small solution x seed customer x size x merged sub-solution, against the definition; explored decomposed runs","Complete for up to 5 customers; fixed larger solutions."),
"C23":("all other explorations plus degenerate instances x extreme settings under AddressSanitizer, debug assertions, overflow checks and hang detection","Uninitialised reads inside allocations are not detected. Quick runs every k-th unit of the other engines under AddressSanitizer."),
"C24":("every run of small instances and every time-out point, output streams of both builds parsed and compared with the recorded history","Streams of child processes; fixed program runs."),
"C28":("explored runs in lock-step with an abstract machine that applies the building blocks by the rules under the same choices","Split, local search, R&R and population are used as black boxes (they have their own properties); a change of the order of random draws counts as another plan."),
"C29":("explored runs under a virtual clock that advances per reading, every stamp compared with the clock around the iteration","Bounded clock courses."),
"C30":("every pair of a boundary alphabet of numbers, each comparison against the definition","The alphabet of pairs is finite; where rounding of the bound itself decides, either answer passes."),
"C31":("every result of the underlying generator for every small range, shuffle and sample, with exact probabilities; seeds against each other","The underlying generator is taken to be fair; sequences over thousands of seeds, not all."),
"C32":("every interleaving of the construction, iteration and destruction steps of two or three solvers, on one thread and in turns on several, and every set of points at which context and algorithm move, each course compared with the undisturbed one; ordered pairs of runs of problems that share all but one trait, in forked processes","Orders are complete for the stated number of steps; runs on threads at once are repeated, not controlled (there is no shared state to interleave within a step); decomposed runs take every fifth order in quick."),
"C33":("every sequence of additions to small populations and every iteration of explored runs, statistics, messages and log records against the members themselves","Log lines are recognised by their 13 numbers, whatever their wording."),
"C25":("every small multiset of demands, against an exact bin-packing solver","Complete within the bounds."),
}
S={p:dict(property=p,quick_cmd=f"tools/check.sh {p} quick",thorough_cmd=f"tools/check.sh {p} thorough",technique=E+t,level="model_checking",
   level_note=n+" The implementation is executed directly; fastrand, ahash and (where needed) the clock are replaced by explorer-controlled stand-ins; the reference models are trusted.") for p,(t,n) in T.items()}
M=dict(version=1,setup_cmd="tools/setup.sh",checks=[S[p] for p in sorted(S)],
 not_applicable=[
  dict(property="C26",reason="A statistical statement about search quality on instances with hundreds of customers under minutes of run time; no bounded exhaustive exploration decides it."),
  dict(property="C27",reason="The wasm module does not compile at this commit (and the wasm target is not installed), so there is no behaviour to explore."),
 ],notes="No hooks in /repo. Violations are replayed with target/release/mc replay FILE (see DESIGN.md).")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","MANIFEST.json"),"w").write(json.dumps(M,indent=1)+"\n")
