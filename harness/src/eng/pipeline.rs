//! The plan of a generation: the algorithm in lock-step with an abstract machine that says which of its building
//! blocks (split, local search, R&R, population) are used, when, and on what, under the same random choices.
use super::ga::{small, variants};
use super::parse::scratch;
use super::procs;
use super::*;
use crate::clock;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst, Lcg};
use crate::oracle::{self, Policy};
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, Decomposition, GeneticAlgorithm, Individual, Population, Split};
use hybridcvrp::solver::improvement::{IterationSchedule, LocalSearch, RuinRecreate};
use hybridcvrp::solver::Metaheuristic;

pub static ENGINE: Engine = Engine { name: "pipeline", tags: &["C28"], units };
const P: &[&str] = &["C28"];

#[derive(PartialEq, Clone, Copy, Debug)]
enum Phase {
    Start,
    Elite,
    Initial,
    Breed,
    Over,
}

/// The abstract machine.
struct Plan {
    phase: Phase,
    pop: Population,
    split: Split,
    ls: LocalSearch,
    rr: RuinRecreate,
    child: Individual,
    round: u64,
    improved: u64,
    next_penalty: u64,
    built: u64,
    cur: f64,
    best: f64,
    routes: Sol,
    records: usize,
}

impl Plan {
    fn new(ctx: &Context) -> Self {
        let mut ga = GeneticAlgorithm::new(ctx);
        let (temp, steps) = {
            let c = ctx.config.borrow();
            (c.rr_start_temp, (c.rr_gamma * ctx.problem.num_customers() as f64).round() as usize)
        };
        ga.rr.set_acceptance(IterationSchedule::new(temp, steps).into());
        ga.rr.update_penalty = false;
        Plan { phase: Phase::Start, pop: ga.population, split: ga.split, ls: ga.ls, rr: ga.rr, child: ga.child, round: 0, improved: 0, next_penalty: 0, built: 0, cur: f64::INFINITY, best: f64::INFINITY, routes: vec![], records: 0 }
    }

    /// R&R puts its own finds into the history of its context.
    fn pull(&mut self, ctx: &Context) {
        let h = ctx.search_history.borrow();
        if let Some(e) = h.last_entry() {
            if e.solution.cost < self.best {
                self.best = e.solution.cost;
                self.routes = e.solution.routes.clone();
            }
        }
    }

    fn note(&mut self, ctx: &Context) {
        if self.child.is_feasible() && self.child.penalized_cost() < self.cur - 1e-6 {
            self.improved = self.round;
            self.cur = self.child.penalized_cost();
            let mut h = ctx.search_history.borrow_mut();
            if self.cur < h.best_cost - 1e-6 {
                h.add(ctx, &self.child);
            }
        }
        self.pull(ctx);
    }

    fn educate(&mut self, ctx: &Context) {
        let c = ctx.config.borrow().clone();
        if c.ls_enabled {
            self.ls.run(ctx, &mut self.child, 1.0);
        }
        let u = ctx.random.real();
        if c.rr_mutation && u < c.rr_probability {
            self.rr.load(ctx, &mut self.child);
            while !self.rr.complete() {
                self.rr.search();
            }
            self.rr.get_best_solution(&mut self.child);
        }
        if !self.child.is_feasible() && ctx.random.real() < c.repair_probability {
            let kept = self.child.clone();
            if c.ls_enabled {
                self.ls.run(ctx, &mut self.child, 10.0);
            }
            if self.child.is_feasible() {
                self.note(ctx);
                self.pop.add_individual(ctx, self.child.clone(), false);
            }
            self.child = kept;
        }
        self.note(ctx);
    }

    /// Ordered crossover over the drawn zone.
    fn cross(ctx: &Context, a: &[usize], b: &[usize]) -> Vec<usize> {
        let n = a.len();
        let start = ctx.random.range_usize(0, n);
        let mut end = ctx.random.range_usize(0, n);
        while end == start && n > 1 {
            end = ctx.random.range_usize(0, n);
        }
        let len = (end + n - start) % n + 1;
        let zone: Vec<usize> = (0..len).map(|k| a[(start + k) % n]).collect();
        let mut kid = vec![0; n];
        for k in 0..len {
            kid[(start + k) % n] = zone[k];
        }
        for (k, c) in b.iter().filter(|c| !zone.contains(c)).enumerate() {
            kid[(end + 1 + k) % n] = *c;
        }
        kid
    }

    fn iterate(&mut self, ctx: &Context) {
        if ctx.terminate() {
            self.phase = Phase::Over;
        }
        let c = ctx.config.borrow().clone();
        match self.phase {
            Phase::Over => (),
            Phase::Start => {
                self.phase = Phase::Initial;
                if c.elite_education && ctx.problem.num_customers() > c.elite_education_problem_size_limit {
                    self.phase = Phase::Elite;
                    self.split.run(ctx, &mut self.child, c.num_vehicles);
                    self.educate(ctx);
                    let steps = (c.elite_education_gamma * ctx.problem.num_customers() as f64).round() as usize;
                    self.rr.set_acceptance(IterationSchedule::new(c.elite_education_start_temp, steps).into());
                    self.rr.update_penalty = true;
                    self.rr.load(ctx, &mut self.child);
                }
            }
            Phase::Elite => {
                if !self.rr.complete() {
                    self.rr.search();
                    self.pull(ctx);
                } else {
                    self.phase = Phase::Initial;
                    self.rr.get_best_solution(&mut self.child);
                    self.note(ctx);
                    self.pop.add_individual(ctx, self.child.clone(), false);
                    let steps = (c.rr_gamma * ctx.problem.num_customers() as f64).round() as usize;
                    self.rr.set_acceptance(IterationSchedule::new(c.rr_start_temp, steps).into());
                    self.rr.update_penalty = false;
                    ctx.reset_penalty();
                }
            }
            Phase::Initial => {
                if self.built == c.initial_individuals {
                    self.phase = Phase::Breed;
                    return;
                }
                let mut kid = Individual::new_random(ctx, self.built);
                std::mem::swap(&mut kid, &mut self.child);
                self.split.run(ctx, &mut self.child, c.num_vehicles);
                self.educate(ctx);
                std::mem::swap(&mut kid, &mut self.child);
                self.pop.add_individual(ctx, kid, true);
                self.built += 1;
            }
            Phase::Breed => {
                ctx.next_iteration();
                let (g, k) = {
                    let a = self.pop.get_parent(ctx);
                    let b = self.pop.get_parent(ctx);
                    (Self::cross(ctx, &a.genotype, &b.genotype), nonempty(&a.phenotype).len())
                };
                self.child = Individual::new(g, self.pop.total_individuals_count);
                self.split.run(ctx, &mut self.child, k as u64);
                self.educate(ctx);
                self.pop.add_individual(ctx, self.child.clone(), true);
                if self.round >= self.next_penalty {
                    self.next_penalty += c.penalty_update_interval;
                    let f = self.pop.feasible_history.iter().filter(|x| **x).count() as f64 / 100.0;
                    let mut cc = ctx.config.borrow_mut();
                    if f < c.feasibility_proportion_target - 0.05 {
                        cc.penalty_capacity *= c.penalty_inc_multiplier;
                    } else if f > c.feasibility_proportion_target + 0.05 {
                        cc.penalty_capacity *= c.penalty_dec_multiplier;
                    }
                    cc.penalty_capacity = cc.penalty_capacity.min(1e7).max(1e-4);
                    drop(cc);
                    for i in self.pop.infeasible.population.iter_mut() {
                        i.evaluate(ctx);
                    }
                    self.pop.infeasible.population.sort();
                }
                if self.round - self.improved > c.max_iterations_without_improvement {
                    self.pop = Population::new(ctx);
                    self.next_penalty = self.round;
                    self.improved = self.round;
                    self.cur = f64::INFINITY;
                    self.built = 0;
                    self.phase = Phase::Start;
                }
                self.round += 1;
            }
        }
    }
}

/// What one moment of a run looks like from outside.
#[derive(Clone, PartialEq, Debug)]
struct Shot {
    over: bool,
    generation: u64,
    child: (Vec<usize>, Sol, i64),
    feasible: Vec<(u64, Sol, i64)>,
    infeasible: Vec<(u64, Sol, i64)>,
    seen: u64,
    history: Vec<bool>,
    penalty: i64,
    records: Vec<i64>,
    last: Sol,
}

fn fix(x: f64) -> i64 {
    if x.is_finite() {
        (x * 1e5).round() as i64
    } else {
        i64::MIN
    }
}

fn shot(ctx: &Context, over: bool, child: &Individual, pop: &Population) -> Shot {
    let m = |v: &Vec<Individual>| v.iter().map(|i| (i.number, i.phenotype.clone(), fix(i.penalized_cost()))).collect::<Vec<_>>();
    let h = ctx.search_history.borrow();
    Shot {
        over,
        generation: *ctx.iteration.borrow(),
        child: (child.genotype.clone(), child.phenotype.clone(), fix(child.penalized_cost())),
        feasible: m(&pop.feasible.population),
        infeasible: m(&pop.infeasible.population),
        seen: pop.total_individuals_count,
        history: pop.feasible_history.clone(),
        penalty: fix(ctx.config.borrow().penalty_capacity),
        records: h.entries().iter().map(|e| fix(e.solution.cost)).collect(),
        last: h.last_entry().map(|e| e.solution.routes.clone()).unwrap_or_default(),
    }
}

/// The first difference in words.
fn diff(a: &Shot, b: &Shot) -> String {
    macro_rules! d {
        ($f:ident) => {
            if a.$f != b.$f {
                return format!("{} is {:?}, the plan says {:?}", stringify!($f), a.$f, b.$f);
            }
        };
    }
    d!(over);
    d!(generation);
    d!(child);
    d!(seen);
    d!(feasible);
    d!(infeasible);
    d!(history);
    d!(penalty);
    d!(records);
    d!(last);
    String::new()
}

/// Rerun under the same choices.
fn again(st: &std::rc::Rc<std::cell::RefCell<oracle::State>>) -> (Vec<u32>, Policy, Vec<f64>, usize) {
    let s = st.borrow();
    (s.prefix.clone(), s.policy, s.reals.clone(), s.horizon)
}

const STEPS: usize = 1500;

pub fn run_one(rec: &mut Rec, inst: &Inst, f: &dyn Fn(&mut Config), st: &std::rc::Rc<std::cell::RefCell<oracle::State>>, what: &dyn Fn() -> String) {
    let mk = || {
        crate::hash::salt(7);
        inst.ctx_with(|c| {
            small(c);
            f(c);
        })
    };
    st.borrow_mut().raw_const = true;
    let (prefix, pol, reals, horizon) = again(st);
    let ctx = mk();
    let mut ga = GeneticAlgorithm::new(&ctx);
    let mut seen = vec![];
    let mut draws = vec![];
    while !ga.terminated() && seen.len() < STEPS {
        ga.iterate(&ctx);
        seen.push(shot(&ctx, ga.terminated(), &ga.child, &ga.population));
        draws.push(st.borrow().draws);
        rec.states += 1;
        rec.tick();
    }
    drop(ga);
    // Keep the first run's trace for the explorer.
    let st2 = oracle::install(prefix, pol, &reals, horizon);
    st2.borrow_mut().raw_const = true;
    let ctx = mk();
    let mut p = Plan::new(&ctx);
    for (i, s) in seen.iter().enumerate() {
        let phase = p.phase;
        p.iterate(&ctx);
        rec.transitions += 1;
        let want = shot(&ctx, p.phase == Phase::Over, &p.child, &p.pop);
        if !rec.check(*s == want, P, || format!("after iteration {} ({phase:?}) {}: {}", i + 1, diff(s, &want), what())) {
            break;
        }
        let _ = &draws;
    }
    rec.traces += 1;
}

fn explore_unit(inst: Inst, name: &'static str, f: fn(&mut Config), pol: Policy, pn: String, horizon: usize, devs: usize) -> Unit {
    unit(format!("plan/{}{}/{name}/{pn}", inst.name, inst.n()), move |rec| {
        let (n, all) = oracle::explore(pol, &oracle::REALS, horizon, Some(devs), 50_000, |st| {
            let st = st.clone();
            let what = || format!("{} {name} choices {:?}", inst.describe(), st.borrow().trace.iter().map(|c| c.c).collect::<Vec<_>>());
            rec.guard(what, |rec| run_one(rec, &inst, &f, &st, &what));
            !rec.stop()
        });
        rec.sample(|| format!("{n} executions, all within the bound: {all}"));
    })
}

/// A sub-problem goes through 2000 generations without elite education, the part cut out being there from the start.
fn solve(rec: &mut Rec, d: &mut Decomposition) {
    let ctx = &d.ctx;
    let load: f64 = ctx.problem.nodes.iter().map(|n| n.demand).sum();
    if (load / ctx.problem.vehicle.cap).ceil() as u64 > ctx.config.borrow().num_vehicles {
        return;
    }
    {
        let mut c = ctx.config.borrow_mut();
        c.elite_education = false;
        c.max_iterations = Some(2000);
    }
    let mut p = Plan::new(ctx);
    p.pop.add_individual(ctx, d.solution.clone(), false);
    p.child = d.solution.clone();
    p.note(ctx);
    while !matches!(p.phase, Phase::Over) {
        p.iterate(ctx);
        rec.tick();
    }
    if p.best.is_finite() {
        let mut x = Individual::new(p.routes.concat(), 0);
        x.phenotype = p.routes.clone();
        x.evaluate(ctx);
        d.solution = x;
    }
}

/// The decomposed algorithm's plan, observed through the recorded solutions.
fn decomposed(rec: &mut Rec, inst: &Inst, f: &dyn Fn(&mut Config), seed: u64, steps: usize, what: &dyn Fn() -> String) {
    let mk = || {
        crate::hash::salt(7);
        clock::start(5_000_000_000, 0, vec![]);
        inst.ctx_with(|c| {
            super::drun::small(c);
            f(c);
            c.time_limit = 1_000_000;
        })
    };
    let go = || {
        let st = oracle::install(vec![], Policy::Stream(seed), &oracle::REALS, 0);
        let mut s = st.borrow_mut();
        s.raw_const = true;
        s.limit = 2_000_000_000;
    };
    let look = |ctx: &Context| {
        let h = ctx.search_history.borrow();
        (h.entries().iter().map(|e| fix(e.solution.cost)).collect::<Vec<_>>(), h.last_entry().map(|e| e.solution.routes.clone()), fix(ctx.config.borrow().penalty_capacity), ctx.config.borrow().num_vehicles, oracle::draws())
    };
    go();
    let ctx = mk();
    let mut m = DecomposedGeneticAlgorithm::new(&ctx);
    let mut seen = vec![];
    for _ in 0..steps {
        m.iterate(&ctx);
        rec.tick();
        seen.push(look(&ctx));
    }
    drop(m);
    oracle::clear();
    go();
    let ctx = mk();
    let mut global = Individual::new_random(&ctx, 0);
    let mut p = Plan::new(&ctx);
    for (i, s) in seen.iter().enumerate() {
        if i == 0 {
            let c = ctx.config.borrow().clone();
            p.child = Individual::new_random(&ctx, 0);
            // Feasible if at all possible.
            ctx.config.borrow_mut().penalty_capacity = c.penalty_capacity * 1e6;
            p.split.run(&ctx, &mut p.child, c.num_vehicles);
            p.educate(&ctx);
            p.rr.set_acceptance(IterationSchedule::new(10.0, 100_000).into());
            p.rr.load(&ctx, &mut p.child);
            loop {
                let before = p.rr.best_cost();
                use hybridcvrp::solver::improvement::Acceptance;
                p.rr.acceptance.reset();
                while !p.rr.complete() {
                    p.rr.search();
                    rec.tick();
                }
                if p.rr.best_cost() >= before - 1e-6 {
                    break;
                }
            }
            p.rr.get_best_solution(&mut p.child);
            ctx.config.borrow_mut().penalty_capacity = c.penalty_capacity;
            global = p.child.clone();
            global.evaluate(&ctx);
        } else {
            let mut d = Decomposition::new(&mut global, &ctx);
            solve(rec, &mut d);
            d.finish(&ctx);
            p.child = global.clone();
            p.note(&ctx);
            p.rr.load(&ctx, &mut p.child);
            while !p.rr.complete() {
                p.rr.search();
            }
            p.rr.get_best_solution(&mut p.child);
            p.note(&ctx);
            global = p.child.clone();
        }
        let want = look(&ctx);
        rec.transitions += 1;
        rec.states += 1;
        if !rec.check(*s == want, P, || format!("after iteration {} costs, routes, penalty, vehicles, draws are {s:?}, the plan says {want:?}: {}", i + 1, what())) {
            break;
        }
    }
    rec.traces += 1;
}

/// Which algorithm the program runs: generation limits end the plain one only.
fn choice(rec: &mut Rec, n: usize, limit: u64) {
    let inst = &family(n)[0];
    let dir = scratch(&format!("pipe{n}-{limit}"));
    std::fs::write(dir.join("i.vrp"), procs::text(inst)).expect("HARNESS");
    let dec = n as u64 >= limit;
    let secs = if dec { 2 } else { 400 };
    std::fs::write(dir.join("config.yml"), format!("deterministic: true\ninitial_individuals: 3\nmax_iterations: 2\ndecompose_limit: {limit}\ndecomposed_problem_min_size: 2\ntime_limit: {secs}\n")).expect("HARNESS");
    let r = procs::run(&procs::sibling("hybridcvrp_bin"), &["i.vrp", "-o", "s.sol"], &[], &dir, 130.0, &mut || rec.tick());
    let _ = std::fs::remove_dir_all(&dir);
    rec.states += 1;
    rec.traces += 1;
    rec.transitions += 1;
    let what = || format!("{n} customers, decomposition from {limit} customers, at most 2 generations, {secs} s: took {:.1} s, exit {:?}", r.took, r.code);
    if dec {
        rec.check(r.code == Some(0) && r.took > 1.9, P, || format!("the decomposed algorithm is due but did not run: {}", what()));
    } else {
        rec.check(r.code == Some(0) && !r.killed, P, || format!("the plain algorithm is due but did not run: {}", what()));
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    let mut vars: Vec<(&'static str, fn(&mut Config))> = variants().into_iter().map(|v| (v.name, v.f)).collect();
    vars.push(("repair_strong", |c| {
        c.repair_probability = 1.0;
        c.penalty_inc_multiplier = 1.0;
        c.penalty_dec_multiplier = 0.01;
        c.feasibility_proportion_target = 0.0;
        c.initial_individuals = 4;
        c.max_iterations = Some(7);
        c.rr_mutation = false;
    }));
    vars.push(("half_rr", |c| {
        c.rr_probability = 0.5;
        c.rr_gamma = 2.0;
        c.rr_start_temp = 3.0;
        c.repair_probability = 0.5;
    }));
    vars.push(("elite_limit", |c| {
        c.elite_education = true;
        c.elite_education_problem_size_limit = 3;
        c.elite_education_gamma = 4.0;
        c.elite_education_start_temp = 7.0;
        c.max_iterations = Some(3);
    }));
    vars.push(("elite_long", |c| {
        c.elite_education = true;
        c.elite_education_gamma = 600.0;
        c.penalty_inc_multiplier = 2.0;
        c.rr_gamma = 2.0;
        c.max_iterations = Some(3);
    }));
    vars.push(("elite_again", |c| {
        c.elite_education = true;
        c.elite_education_gamma = 6.0;
        c.max_iterations_without_improvement = 1;
        c.max_iterations = Some(7);
    }));
    let pols: Vec<(Policy, String)> = (0..if th { 8 } else { 2 }).map(|s| (Policy::Stream(31 + s), format!("s{s}"))).collect();
    for n in 1..=if th { 6 } else { 5 } {
        for inst in family(n) {
            for (name, f) in &vars {
                for (p, pn) in &pols {
                    v.push(explore_unit(inst.clone(), *name, *f, *p, pn.clone(), if th { 150 } else { 24 }, 1));
                }
            }
        }
    }
    // Customers that are far from each other and close to the depot: every route counts.
    for n in [5usize, 6] {
        let star = family(n)[0].with("star", |i| {
            i.lower = Some((1..=n).map(|a| (0..a).map(|b| if b == 0 { 3.0 + 0.37 * a as f64 } else { 70.0 + (a * b) as f64 + 0.13 * b as f64 }).collect()).collect());
            i.cap = i.dem.iter().sum::<f64>() + 1.0;
        });
        for (name, f) in &vars {
            for (p, pn) in &pols {
                v.push(explore_unit(star.clone(), *name, *f, *p, pn.clone(), if th { 150 } else { 24 }, 1));
            }
        }
    }
    for n in [7usize, 9] {
        for inst in family(n) {
            for (name, f) in vars.clone() {
                let inst = inst.clone();
                v.push(unit(format!("long/{}{n}/{name}", inst.name), move |rec| {
                    for s in 0..if th { 10 } else { 2 } {
                        let what = || format!("{} {name} stream {s}", inst.describe());
                        rec.guard(what, |rec| {
                            let st = oracle::install(vec![], Policy::Stream(700 + s), &oracle::REALS, 0);
                            let mut r = Lcg(s);
                            let (init, gens) = (2 + r.below(8) as u64, 10 + r.below(40) as u64);
                            run_one(rec, &inst, &|c| {
                                f(c);
                                c.initial_individuals = init;
                                c.max_iterations = Some(gens);
                            }, &st, &what);
                        });
                        if rec.stop() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // As many initial individuals, generations and steps as users ask for.
    for (n, k) in [(2usize, 1usize), (5, 0), (6, 6), (9, 4)] {
        v.push(unit(format!("scale/{n}"), move |rec| {
            let inst = family(n)[k].clone();
            for s in 0..if th { 8 } else { 2 } {
                let what = || format!("{} many individuals, stream {s}", inst.describe());
                rec.guard(what, |rec| {
                    let st = oracle::install(vec![], Policy::Stream(1200 + s), &oracle::REALS, 0);
                    st.borrow_mut().limit = 2_000_000_000;
                    run_one(rec, &inst, &|c| {
                        c.initial_individuals = 130 + 150 * (s % 2);
                        c.min_population_size = 25;
                        c.population_lambda = 40;
                        c.max_iterations = Some(400);
                        c.penalty_update_interval = 100;
                        c.max_iterations_without_improvement = 260;
                        c.rr_gamma = 1.0;
                    }, &st, &what);
                });
            }
        }));
    }
    // Factors that leave a part of a step over.
    for n in [1usize, 2, 3, 5] {
        for (gi, g) in [0.1, 0.5, 0.7, 1.1, 1.3, 2.5, 3.9].into_iter().enumerate() {
            v.push(unit(format!("steps/{n}/{g}"), move |rec| {
                for (i, inst) in family(n).into_iter().enumerate() {
                    if !th && i % 3 != gi % 3 {
                        continue;
                    }
                    for elite in [false, true] {
                        let what = || format!("{} R&R factor {g}, elite education {elite}", inst.describe());
                        rec.guard(what, |rec| {
                            let st = oracle::install(vec![], Policy::Stream(1300 + gi as u64), &oracle::REALS, 0);
                            run_one(rec, &inst, &|c| {
                                c.rr_gamma = if elite { 1.0 } else { g };
                                c.rr_probability = 1.0;
                                c.elite_education = elite;
                                c.elite_education_problem_size_limit = 0;
                                c.elite_education_gamma = g;
                            }, &st, &what);
                        });
                    }
                }
            }));
        }
    }
    for (n, kind) in [(20usize, 0usize), (35, 1), (50, 2), (70, 3)] {
        v.push(unit(format!("large/{n}"), move |rec| {
            let inst = large(n, kind);
            for s in 0..if th { 4 } else { 1 } {
                let what = || format!("{n} customers, shape {kind}, stream {s}");
                rec.guard(what, |rec| {
                    let st = oracle::install(vec![], Policy::Stream(900 + s), &oracle::REALS, 0);
                    run_one(rec, &inst, &|c| {
                        c.initial_individuals = 12;
                        c.min_population_size = 5;
                        c.population_lambda = 6;
                        c.max_iterations = Some(40);
                        c.penalty_update_interval = 3;
                        c.repair_probability = 0.5;
                        c.max_iterations_without_improvement = 20;
                    }, &st, &what);
                });
            }
        }));
    }
    for n in [5usize, 64, 66, 101, 130] {
        // Random orders: every customer can stand at every place.
        v.push(unit(format!("orders/{n}"), move |rec| {
            let inst = large(n, 0);
            let mut missing = n * n;
            let mut seen = vec![false; n * n];
            let most = 60 * n;
            let mut tried = 0;
            while missing > 0 && tried < most {
                tried += 1;
                let ctx = inst.ctx_with(|c| c.deterministic = true);
                let ctx = {
                    let mut ctx = ctx;
                    ctx.random = hybridcvrp::utils::Random::from_seed(tried as u64);
                    ctx
                };
                let what = || format!("random individual, {n} customers, seed {tried}");
                rec.guard(what, |rec| {
                    let i = Individual::new_random(&ctx, 0);
                    let mut sorted = i.genotype.clone();
                    sorted.sort();
                    rec.check(sorted == (1..=n).collect::<Vec<_>>(), P, || format!("order {:?}: {}", i.genotype, what()));
                    for (place, &c) in i.genotype.iter().enumerate() {
                        if (1..=n).contains(&c) && place < n && !std::mem::replace(&mut seen[place * n + c - 1], true) {
                            missing -= 1;
                        }
                    }
                });
                rec.states += 1;
                if rec.stop() {
                    return;
                }
            }
            rec.traces += 1;
            rec.transitions += tried as u64;
            let first = seen.iter().position(|x| !x).unwrap_or(0);
            rec.check(missing == 0, P, || format!("random orders of {n} customers: in {tried} of them {missing} (place, customer) pairs never occur, as customer {} at place {}", first % n + 1, first / n));
        }));
    }
    for n in 1..=5usize {
        for (fi, inst) in family(n).into_iter().enumerate() {
            if !th && (n + fi) % 4 != 0 {
                continue;
            }
            v.push(unit(format!("decomposed/{}{n}", inst.name), move |rec| {
                for s in 0..if th { 4 } else { 1 } {
                    let what = || format!("{} stream {s}", inst.describe());
                    rec.guard(what, |rec| decomposed(
                        rec,
                        &inst,
                        &|c| {
                            c.rr_mutation = fi % 2 == 0;
                            // Not in sub-problems.
                            c.elite_education = (fi / 2) % 2 == 0;
                            c.elite_education_problem_size_limit = 0;
                            c.elite_education_gamma = 5.0;
                        },
                        s + 5,
                        4,
                        &what,
                    ));
                    clock::clear();
                    oracle::clear();
                }
                // The least and the greatest penalty.
                for (name, demands, places) in [("heavy", 1e6, 1.0), ("far", 1.0, 1e5)] {
                    let scaled = inst.with(&format!("{}_{name}", inst.name), |i| {
                        i.cap *= demands;
                        i.dem.iter_mut().for_each(|d| *d *= demands);
                        i.xy.iter_mut().for_each(|p| *p = (p.0 * places, p.1 * places));
                    });
                    let what = || format!("{} decomposed", scaled.describe());
                    rec.guard(what, |rec| decomposed(rec, &scaled, &|c| c.rr_mutation = fi % 2 == 0, 5, 2, &what));
                    clock::clear();
                    oracle::clear();
                }
            }));
        }
    }
    for (n, limit) in [(1usize, 2u64), (3, 3), (3, 4), (3, 2), (7, 8), (7, 7)] {
        v.push(unit(format!("choice/{n}/{limit}"), move |rec| choice(rec, n, limit)));
    }
    v
}
