//! Decomposition: cutting sub-problems out of every small solution, merging every sub-solution back,
//! bounded runs of the sub-problem solver.
use super::*;
use crate::clock;
use crate::core::{unit, Unit};
use crate::inst::{family, Inst};
use crate::oracle::{self, Policy};
use crate::refm;
use hybridcvrp::solver::genetic::Decomposition;
use hybridcvrp::solver::Context;

pub static ENGINE: Engine = Engine { name: "decomp", tags: &["C22", "C23"], units };
const P: &[&str] = &["C22"];

/// The sub-problem as an instance of its own, from the mapping.
pub fn sub_inst(inst: &Inst, map: &[usize]) -> Inst {
    inst.with(&format!("{}_sub", inst.name), |i| {
        i.xy = map.iter().map(|&c| inst.xy[c]).collect();
        i.dem = map.iter().map(|&c| inst.dem[c]).collect();
        if inst.lower.is_some() {
            i.lower = Some((1..map.len()).map(|a| (0..a).map(|b| raw(inst, map[a], map[b])).collect()).collect());
        }
    })
}

fn raw(inst: &Inst, a: usize, b: usize) -> f64 {
    let (a, b) = if a > b { (a, b) } else { (b, a) };
    match &inst.lower {
        Some(l) if a != b => l[a - 1][b],
        _ => 0.0,
    }
}

fn sorted(mut s: Sol) -> Sol {
    s.sort();
    s
}

/// Judges a fresh decomposition of `before`; returns the untouched routes.
fn judge_cut(rec: &mut Rec, inst: &Inst, ctx: &Context, before: &Sol, d: &Decomposition, size: usize, seed: Option<usize>, what: &dyn Fn() -> String) -> Option<Sol> {
    rec.transitions += 1;
    let n = inst.n();
    let k = ctx.config.borrow().num_vehicles;
    let map = &d.mapping;
    let mut taken: Vec<usize> = map[1..].to_vec();
    taken.sort_unstable();
    let mut uniq = taken.clone();
    uniq.dedup();
    if !rec.check(map[0] == 0 && uniq.len() == taken.len() && taken.iter().all(|&c| c >= 1 && c <= n) && !taken.is_empty(), P, || format!("mapping {map:?}: {}", what())) {
        return None;
    }
    let routes = nonempty(before);
    let inside: Sol = routes.iter().filter(|r| taken.contains(&r[0])).cloned().collect();
    let outside: Sol = routes.iter().filter(|r| !taken.contains(&r[0])).cloned().collect();
    let mut all_in: Vec<usize> = inside.concat();
    all_in.sort_unstable();
    let mut ok = rec.check(all_in == taken, P, || format!("the cut {taken:?} does not consist of whole routes: {}", what()));
    ok &= rec.check(sorted(nonempty(&d.global.phenotype)) == sorted(outside.clone()), P, || format!("remaining routes {:?} instead of {outside:?}: {}", d.global.phenotype, what()));
    let sub: Sol = nonempty(&d.solution.phenotype);
    let good_index = sub.iter().flatten().all(|&c| c >= 1 && c < map.len());
    ok &= rec.check(good_index && refm::complete(map.len() - 1, &sub), P, || format!("sub-solution {sub:?} of a mapping {map:?}: {}", what()));
    if !ok {
        return None;
    }
    let back: Sol = sub.iter().map(|r| r.iter().map(|&c| map[c]).collect()).collect();
    ok &= rec.check(sorted(back.clone()) == sorted(inside.clone()), P, || format!("sub-solution stands for {back:?} instead of {inside:?}: {}", what()));
    rec.check(d.solution.genotype == d.solution.phenotype.concat(), P, || format!("sub-solution's tour {:?} but routes {:?}: {}", d.solution.genotype, d.solution.phenotype, what()));
    // Enough customers, no more routes than that takes.
    let least = inside.iter().map(|r| r.len()).max().unwrap_or(0);
    rec.check(taken.len() - least < size.max(1), P, || format!("{} customers in {} routes were cut, {size} are enough: {}", taken.len(), inside.len(), what()));
    if let Some(s) = seed {
        if s > 0 && (n <= 200 || size <= 200) {
            rec.check(taken.contains(&s), P, || format!("the cut {taken:?} lacks the customer {s} it starts from: {}", what()));
            rec.check(taken.len() >= size.min(n), P, || format!("only {} customers were cut, {size} are wanted: {}", taken.len(), what()));
        }
    }
    // The sub-problem.
    let sc = &d.ctx;
    rec.check(sc.problem.nodes.len() == map.len() && sc.problem.vehicle.cap == inst.cap, P, || format!("sub-problem of {} locations, capacity {}: {}", sc.problem.nodes.len(), sc.problem.vehicle.cap, what()));
    for (a, &c) in map.iter().enumerate() {
        let nd = &sc.problem.nodes[a];
        rec.check(nd.demand == inst.dem[c] && (nd.coord.lng, nd.coord.lat) == inst.xy[c], P, || format!("sub-customer {a} stands for {c} but has demand {} at {:?}: {}", nd.demand, nd.coord, what()));
        for (b, &e) in map.iter().enumerate() {
            let x = sc.matrix_provider.distance.get(a, b);
            rec.check(refm::close(x, inst.d(c, e)), P, || format!("sub-distance {a}-{b} is {x}, {c}-{e} is {}: {}", inst.d(c, e), what()));
        }
    }
    super::matrix::neighbours(rec, inst, &sc.matrix_provider.correlation, map, what);
    let (sk, pen) = {
        let c = sc.config.borrow();
        (c.num_vehicles, c.penalty_capacity)
    };
    rec.check(sk as usize + outside.len() <= k as usize, P, || format!("{sk} vehicles for the sub-problem, {} untouched routes, {k} in all: {}", outside.len(), what()));
    rec.check(sk as usize >= inside.len(), P, || format!("{sk} vehicles for the {} routes of the cut: {}", inside.len(), what()));
    // The settings in force, apart from the fleet and what every search of a sub-problem changes.
    let settings = |c: &hybridcvrp::config::Config| {
        let mut c = c.clone();
        c.num_vehicles = 0;
        c.elite_education = false;
        c.max_iterations = None;
        format!("{c:?}")
    };
    let (mine, theirs) = (settings(&ctx.config.borrow()), settings(&sc.config.borrow()));
    rec.check(mine == theirs, P, || format!("the sub-problem starts with the settings {theirs}, in force are {mine}: {}", what()));
    let e = refm::cost(inst, &inside, pen);
    rec.check(refm::close(e, d.solution.penalized_cost()), P, || format!("sub-solution costs {} but the routes {inside:?} {e}: {}", d.solution.penalized_cost(), what()));
    rec.check(sc.search_history.borrow().entries().is_empty() && *sc.iteration.borrow() == 0, P, || format!("the sub-problem starts with a history: {}", what()));
    Some(outside)
}

/// Judges the merged solution.
fn judge_merge(rec: &mut Rec, inst: &Inst, ctx: &Context, g: &Individual, outside: &Sol, part: &Sol, what: &dyn Fn() -> String) {
    rec.transitions += 1;
    let (k, pen) = {
        let c = ctx.config.borrow();
        (c.num_vehicles as usize, c.penalty_capacity)
    };
    let mut want = outside.clone();
    want.extend(nonempty(part));
    let ok = rec.check(sorted(nonempty(&g.phenotype)) == sorted(want.clone()), P, || format!("merged routes {:?} instead of {want:?}: {}", g.phenotype, what()));
    rec.check(g.phenotype.len() == k, P, || format!("{} route slots for {k} vehicles: {}", g.phenotype.len(), what()));
    if ok {
        consistent(rec, inst, g, pen, P, what);
        let e = refm::cost(inst, &want, pen);
        rec.check(refm::close(e, g.penalized_cost()), P, || format!("merged cost {} instead of {e}: {}", g.penalized_cost(), what()));
    }
}

fn context(inst: &Inst, size: usize, slack: Option<usize>, s: &Sol, seed: u64, det: bool) -> Box<Context> {
    let f = |c: &mut hybridcvrp::config::Config| {
        c.decomposed_problem_min_size = size as u64;
        c.seed = seed;
        c.deterministic = det;
        c.time_limit = 1_000_000;
    };
    match slack {
        None => inst.ctx_with(f),
        Some(x) => inst.ctx_k(nonempty(s).len() + x, 3.5, f),
    }
}

/// The route the sub-problem starts from at this draw: all of it, if one customer is enough.
fn start_route(inst: &Inst, s: &Sol, slack: Option<usize>, seed: u64, first: usize) -> Sol {
    crate::hash::salt(seed);
    let ctx = context(inst, 1, slack, s, seed, seed % 2 == 0);
    let k = ctx.config.borrow().num_vehicles as usize;
    let mut g = ind(&ctx, &pad(nonempty(s), k));
    g.sort_routes(&ctx);
    g.evaluate(&ctx);
    let _o = oracle::install(vec![first as u32], Policy::First, &[0.5], 1);
    let d = Decomposition::new(&mut g, &ctx);
    nonempty(&d.solution.phenotype).iter().map(|r| r.iter().map(|&c| d.mapping[c]).collect()).collect()
}

/// Every seed customer, size and sub-solution for one global solution.
fn cut_all(rec: &mut Rec, inst: &Inst, s: &Sol, slack: Option<usize>, merge: bool, seed: u64) {
    let n = inst.n();
    let fits = slack.is_some() || inst.ctx_with(|_| ()).config.borrow().num_vehicles as usize >= nonempty(s).len();
    if !fits {
        return;
    }
    // Where each draw starts: every customer once.
    let mut starts: Vec<usize> = vec![];
    let what = || format!("{} solution {s:?} slack {slack:?} hash seed {seed}", inst.describe());
    rec.guard(what, |rec| {
        let mut hits: std::collections::BTreeMap<Vec<usize>, usize> = Default::default();
        for first in 0..n {
            let r = start_route(inst, s, slack, seed, first);
            rec.transitions += 1;
            starts.push(r.first().and_then(|r| r.first()).copied().unwrap_or(0));
            for r in r {
                *hits.entry(r).or_default() += 1;
            }
        }
        for r in nonempty(s) {
            let h = hits.get(&r).copied().unwrap_or(0);
            rec.check(h == r.len(), P, || format!("{h} of {n} draws start from the route {r:?} with {} customers: {}", r.len(), what()));
        }
    });
    if starts.len() < n || rec.stop() {
        return;
    }
    for size in 1..=n + 1 {
        for first in 0..n {
            rec.states += 1;
            rec.tick();
            let what = || format!("{} solution {s:?} slack {slack:?} minimum size {size} draw {first} hash seed {seed}", inst.describe());
            rec.guard(what, |rec| {
                crate::hash::salt(seed);
                let ctx = context(inst, size, slack, s, seed, seed % 2 == 0);
                let k = ctx.config.borrow().num_vehicles as usize;
                if k < nonempty(s).len() {
                    return;
                }
                let mut start = ind(&ctx, &pad(nonempty(s), k));
                start.sort_routes(&ctx);
                start.evaluate(&ctx);
                let before = start.phenotype.clone();
                let mut subs: Vec<Sol> = vec![];
                let cut = |g: &mut Individual, rec: &mut Rec, part: Option<&Sol>, subs: &mut Vec<Sol>| {
                    let _o = oracle::install(vec![first as u32], Policy::First, &[0.5], 1);
                    let mut d = Decomposition::new(&mut *g, &ctx);
                    let seed = Some(starts[first]);
                    let Some(outside) = (if part.is_none() { judge_cut(rec, inst, &ctx, &before, &d, size, seed, &what) } else { Some(before.iter().filter(|r| !r.is_empty() && !d.mapping[1..].contains(&r[0])).cloned().collect()) }) else {
                        return None;
                    };
                    let m = d.mapping.len() - 1;
                    let sk = d.ctx.config.borrow().num_vehicles as usize;
                    if part.is_none() && merge {
                        refm::canonical_solutions(m, sk.min(m)).into_iter().for_each(|x| subs.push(x));
                    }
                    if let Some(p) = part {
                        // Sub-solutions come with and without unused slots.
                        let extra = (p.len() + m) % 3;
                        d.solution = ind(&d.ctx, &pad(p.clone(), p.len() + extra));
                    }
                    let done: Sol = nonempty(&d.solution.phenotype).iter().map(|r| r.iter().map(|&c| d.mapping[c]).collect()).collect();
                    d.finish(&ctx);
                    Some((outside, done))
                };
                let mut g = start.clone();
                if let Some((o, p)) = cut(&mut g, rec, None, &mut subs) {
                    judge_merge(rec, inst, &ctx, &g, &o, &p, &what);
                    rec.check(refm::close(g.penalized_cost(), start.penalized_cost()), P, || format!("cut and merged unchanged it costs {} instead of {}: {}", g.penalized_cost(), start.penalized_cost(), what()));
                }
                for p in &subs {
                    let mut none = vec![];
                    let mut g = start.clone();
                    if let Some((o, q)) = cut(&mut g, rec, Some(p), &mut none) {
                        judge_merge(rec, inst, &ctx, &g, &o, &q, &|| format!("sub-solution {p:?} {}", what()));
                    }
                }
            });
            if rec.stop() {
                return;
            }
        }
    }
}

/// A bounded run of the sub-problem solver, then the merge, in a run without a best solution and in one that has
/// recorded the cheapest of all: what is found for the sub-problem does not depend on that.
fn run_sub(rec: &mut Rec, inst: &Inst, s: &Sol, size: usize, slack: Option<usize>, pol: Policy, first: u32, calls: u64) {
    let a = run_sub_with(rec, inst, s, size, slack, pol, first, calls, false);
    let b = run_sub_with(rec, inst, s, size, slack, pol, first, calls, true);
    if let (Some(a), Some(b)) = (a, b) {
        rec.check(a == b, P, || format!("the sub-problem's solution is {b:?} in a run that already knows a better solution of the whole, otherwise {a:?}: {} solution {s:?} slack {slack:?} minimum size {size} policy {pol:?} first draw {first} clock reads {calls}", inst.describe()));
    }
}

fn run_sub_with(rec: &mut Rec, inst: &Inst, s: &Sol, size: usize, slack: Option<usize>, pol: Policy, first: u32, calls: u64, told: bool) -> Option<Sol> {
    let mut result = None;
    rec.states += 1;
    rec.traces += 1;
    rec.tick();
    let what = || format!("{} solution {s:?} slack {slack:?} minimum size {size} policy {pol:?} first draw {first} clock reads {calls} best known {told}", inst.describe());
    rec.guard(what, |rec| {
        crate::hash::salt(5);
        clock::start(1_000_000_000, 0, vec![]);
        let ctx = context(inst, size, slack, s, 1, true);
        {
            let mut c = ctx.config.borrow_mut();
            super::ga::small(&mut c);
            c.max_iterations = None;
            c.elite_education = calls % 2 == 0;
            c.elite_education_problem_size_limit = 0;
            c.time_limit = 1000;
            c.seed = 1;
        }
        let k = ctx.config.borrow().num_vehicles as usize;
        let mut g = ind(&ctx, &pad(nonempty(s), k));
        g.sort_routes(&ctx);
        g.evaluate(&ctx);
        let before = (g.phenotype.clone(), g.penalized_cost(), g.is_feasible());
        if told {
            let all = refm::canonical_solutions(inst.n(), k.min(inst.n()));
            let best = all.iter().filter(|x| refm::eval(inst, x, 1.0).feasible).min_by(|x, y| refm::cost(inst, x, 1.0).partial_cmp(&refm::cost(inst, y, 1.0)).unwrap());
            let Some(best) = best else { return };
            ctx.search_history.borrow_mut().add(&ctx, &ind(&ctx, &pad(best.clone(), k)));
        }
        let cfg = format!("{:?}", ctx.config.borrow());
        let _o = oracle::install(vec![first], pol, &oracle::REALS, 1);
        // Most of the run's time is over.
        clock::advance(900_000_000_000);
        let mut d = Decomposition::new(&mut g, &ctx);
        let Some(outside) = judge_cut(rec, inst, &ctx, &before.0, &d, size, None, &what) else { return };
        let sub_before = (d.solution.penalized_cost(), d.solution.is_feasible(), nonempty(&d.solution.phenotype));
        // Every look at the clock takes so long that the rest of the time is over after `calls` of them.
        let looks = clock::reads();
        clock::set_step(100_000_000_000 / calls + 1);
        d.run();
        let looks = clock::reads() - looks;
        clock::set_step(0);
        let sub = d.solution.phenotype.clone();
        let map = d.mapping.clone();
        let pen = ctx.config.borrow().penalty_capacity;
        let part: Sol = sub.iter().map(|r| r.iter().map(|&c| map.get(c).copied().unwrap_or(0)).collect()).collect();
        rec.check(refm::complete(map.len() - 1, &sub), P, || format!("the sub-problem's solution {sub:?} is no partition: {}", what()));
        {
            let h = d.ctx.search_history.borrow();
            if let Some(e) = h.last_entry() {
                rec.check(d.solution.is_feasible() && refm::close(d.solution.penalized_cost(), e.solution.cost), P, || format!("the sub-problem's best costs {} but {} is taken: {}", e.solution.cost, d.solution.penalized_cost(), what()));
            } else {
                rec.check(sorted(nonempty(&sub)) == sorted(nonempty(&sub_before.2)), P, || format!("nothing was found for the sub-problem {:?} but {sub:?} is taken: {}", sub_before.2, what()));
            }
            if sub_before.1 {
                rec.check(d.solution.is_feasible() && d.solution.penalized_cost() <= sub_before.0 + 2e-6, P, || format!("the sub-solution got worse, from {} to {}: {}", sub_before.0, d.solution.penalized_cost(), what()));
            }
        }
        result = Some(sub.clone());
        let sub_inst = sub_inst(inst, &map);
        consistent(rec, &sub_inst, &{
            let mut x = d.solution.clone();
            x.evaluate(&ctx_for(&sub_inst, pen));
            x
        }, pen, P, &what);
        d.finish(&ctx);
        judge_merge(rec, inst, &ctx, &g, &outside, &part, &what);
        if before.2 {
            rec.check(g.is_feasible() && g.penalized_cost() <= before.1 + 2e-6, P, || format!("the solution got worse, from {} to {} {:?}: {}", before.1, g.penalized_cost(), g.phenotype, what()));
        }
        rec.check(format!("{:?}", ctx.config.borrow()) == cfg, P, || format!("solving the sub-problem changed the settings from {cfg} to {:?}: {}", ctx.config.borrow(), what()));
        rec.check(ctx.search_history.borrow().entries().len() == told as usize && *ctx.iteration.borrow() == 0, P, || format!("solving the sub-problem changed the run's history: {}", what()));
        rec.check(looks <= calls + 40, &["C22", "C20"], || format!("the clock was read {looks} times, the time was over after {calls}: {}", what()));
    });
    clock::clear();
    oracle::clear();
    result
}

fn ctx_for(inst: &Inst, pen: f64) -> Box<Context> {
    inst.ctx_k(inst.n() + 1, pen, |_| ())
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    for n in 1..=5usize {
        for inst in family(n) {
            // n = 5: one shape in quick.
            if n == 5 && !th && inst.name != "grid_ties_zero" && inst.name != "generic" {
                continue;
            }
            for slack in [None, Some(0), Some(1)] {
                let blocks = if n == 5 { 8 } else { 1 };
                for b in 0..blocks {
                    let inst = inst.clone();
                    v.push(unit(format!("cut/{}{n}/{slack:?}/{b}", inst.name), move |rec| {
                        let all = refm::canonical_solutions(n, n);
                        for (i, s) in all.iter().enumerate() {
                            if i % blocks != b {
                                continue;
                            }
                            let merge = n < 5 || th;
                            cut_all(rec, &inst, s, slack, merge, 2);
                            if !th && n >= 4 {
                                continue;
                            }
                            cut_all(rec, &inst, s, slack, false, 5);
                            if th {
                                cut_all(rec, &inst, s, slack, false, 40);
                            }
                            if rec.stop() {
                                return;
                            }
                        }
                        rec.sample(|| format!("{} solutions of {n} customers, every minimum size and seed customer", all.len()));
                    }));
                }
            }
        }
    }
    // Bounded runs of the sub-problem solver.
    for n in 2..=(if th { 5 } else { 4 }) {
        for inst in family(n) {
            for slack in [None, Some(0)] {
                let inst = inst.clone();
                v.push(unit(format!("run/{}{n}/{slack:?}", inst.name), move |rec| {
                    let all = refm::canonical_solutions(n, n);
                    let step = match (th, n) {
                        (_, 0..=3) => 1,
                        (false, _) => 7,
                        (true, 4) => 1,
                        (true, _) => 5,
                    };
                    for s in all.iter().step_by(step) {
                        for size in 1..=n {
                            for first in 0..n as u32 {
                                for (pol, calls) in [(Policy::First, 9u64), (Policy::Last, 14), (Policy::Stream(1), 24), (Policy::Stream(2), 60)] {
                                    if (!th && pol == Policy::Stream(1)) || (!th && n == 4 && (first + size as u32) % 2 == 0) {
                                        continue;
                                    }
                                    run_sub(rec, &inst, s, size, slack, pol, first, calls);
                                }
                                if rec.stop() {
                                    return;
                                }
                            }
                        }
                    }
                    rec.sample(|| format!("{} solutions of {n} customers", all.len()));
                }));
            }
        }
    }
    // Neighbour lists shorter than the sub-problem wanted, many routes.
    v.push(unit("large", move |rec| {
        for (n, kind) in [(12usize, 0usize), (40, 1), (90, 2), (180, 1), (230, 3), (260, 0)] {
            let inst = crate::inst::large(n, kind);
            let mut s: Sol = vec![vec![]];
            let mut load = 0.0;
            for c in 1..=n {
                let d = inst.dem[c];
                if load + d > inst.cap || s.last().unwrap().len() >= 3 + c % 9 {
                    s.push(vec![]);
                    load = 0.0;
                }
                load += d;
                s.last_mut().unwrap().push(c);
            }
            for size in [1, n / 10 + 1, n / 3, 2 * n / 3, n - 1, n, n + 5] {
                for first in [0, 1, n / 2, n - 1] {
                    for slack in [0, 3] {
                        rec.states += 1;
                        let what = || format!("{} customers, shape {kind}, minimum size {size} draw {first}", n);
                        rec.guard(what, |rec| {
                            let start = start_route(&inst, &s, Some(slack), 3, first);
                            let start = start.first().and_then(|r| r.first()).copied();
                            let ctx = context(&inst, size, Some(slack), &s, 3, first % 2 == 0);
                            let k = ctx.config.borrow().num_vehicles as usize;
                            let mut g = ind(&ctx, &pad(s.clone(), k));
                            g.sort_routes(&ctx);
                            g.evaluate(&ctx);
                            let before = g.phenotype.clone();
                            let _o = oracle::install(vec![first as u32], Policy::First, &[0.5], 1);
                            let d = Decomposition::new(&mut g, &ctx);
                            let Some(outside) = judge_cut(rec, &inst, &ctx, &before, &d, size, start, &what) else { return };
                            let part: Sol = d.solution.phenotype.iter().map(|r| r.iter().map(|&c| d.mapping[c]).collect()).collect();
                            d.finish(&ctx);
                            judge_merge(rec, &inst, &ctx, &g, &outside, &part, &what);
                        });
                        if rec.stop() {
                            return;
                        }
                    }
                }
            }
        }
    }));
    v
}
