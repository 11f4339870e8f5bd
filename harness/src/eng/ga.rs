//! The genetic algorithm stepped one iteration at a time, with monitors after every step.
use super::population::{judge, Mem, Par};
use super::*;
use crate::clock;
use crate::core::{unit, Unit};
use crate::inst::{family, Inst, Lcg};
use crate::oracle::{self, Policy};
use crate::refm;
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::GeneticAlgorithm;
use hybridcvrp::solver::Metaheuristic;
use std::collections::BTreeMap;

pub static ENGINE: Engine = Engine { name: "ga", tags: &["C01", "C02", "C03", "C16", "C17", "C19", "C20", "C23"], units };
const SOL: &[&str] = &["C01"];
const COST: &[&str] = &["C02"];
const BEST: &[&str] = &["C03"];
const POP: &[&str] = &["C16"];
const OX: &[&str] = &["C17"];
const PEN: &[&str] = &["C19"];
const END: &[&str] = &["C20"];

/// What one entry of a search history must satisfy; returns its cost.
pub fn judge_entry(rec: &mut Rec, inst: &Inst, routes: &Sol, cost: f64, fleet: usize, what: &dyn Fn() -> String) {
    let ok = rec.check(refm::complete(inst.n(), routes), SOL, || format!("recorded solution {routes:?} is not a partition of the customers: {}", what()));
    for r in routes {
        let l = refm::load(inst, r);
        rec.check(l <= inst.cap + 2e-6, SOL, || format!("recorded route {r:?} carries {l}, capacity {}: {}", inst.cap, what()));
    }
    rec.check(nonempty(routes).len() <= fleet, SOL, || format!("recorded solution {routes:?} uses more than {fleet} vehicles: {}", what()));
    if ok {
        let d: f64 = routes.iter().map(|r| refm::route_dist(inst, r)).sum();
        rec.check(refm::close(d, cost), COST, || format!("recorded cost {cost} but the routes {routes:?} are {d} long: {}", what()));
    }
}

/// Follows one run.
pub struct Watch {
    pub inst: Inst,
    pub par: Par,
    pub entries: usize,
    pub last_cost: f64,
    pub gens: u64,
    /// Population checks (off while elite education leaves costs of another penalty behind).
    pub pop: bool,
    /// Generation number within the algorithm (restarts do not reset it).
    it: u64,
    next_update: u64,
    last_improved: u64,
    cur_best: f64,
    hist: Vec<bool>,
    pen: f64,
    pub restarts: u64,
    rebuild: Option<u64>,
    fleet: usize,
}

impl Watch {
    pub fn new(inst: &Inst, ctx: &Context) -> Self {
        let c = ctx.config.borrow();
        Watch {
            inst: inst.clone(),
            par: Par { min: c.min_population_size, lambda: c.population_lambda, elites: c.num_elites, closest: c.num_diversity_closest },
            entries: 0,
            last_cost: f64::INFINITY,
            gens: 0,
            pop: !c.elite_education,
            it: 0,
            next_update: 0,
            last_improved: 0,
            cur_best: f64::INFINITY,
            hist: vec![true; 100],
            pen: c.penalty_capacity,
            restarts: 0,
            rebuild: None,
            fleet: c.num_vehicles as usize,
        }
    }

    /// The recorded bests since the last look.
    pub fn history(&mut self, rec: &mut Rec, ctx: &Context, what: &dyn Fn() -> String) {
        let h = ctx.search_history.borrow();
        let e = h.entries();
        rec.check(e.len() >= self.entries, BEST, || format!("recorded solutions disappeared: {}", what()));
        for (i, x) in e.iter().enumerate().skip(self.entries) {
            rec.transitions += 1;
            let c = x.solution.cost;
            rec.check(c < self.last_cost, BEST, || format!("recorded cost {c} after {}: {}", self.last_cost, what()));
            self.last_cost = c;
            if i + 1 == e.len() {
                judge_entry(rec, &self.inst, &x.solution.routes, c, self.fleet, what);
            }
        }
        self.entries = e.len();
        if let Some(x) = h.last_entry() {
            rec.check(x.solution.cost == self.last_cost && !x.solution.routes.is_empty(), BEST, || format!("the recorded best changed to {:?} {}: {}", x.solution.routes, x.solution.cost, what()));
            rec.check(h.best_cost == self.last_cost, BEST, || format!("best cost {} but recorded {}: {}", h.best_cost, self.last_cost, what()));
        } else {
            rec.check(h.best_cost == f64::INFINITY, BEST, || format!("best cost {} but nothing recorded: {}", h.best_cost, what()));
        }
    }

    /// A feasible solution that exists now must not beat the record.
    fn beaten(&self, rec: &mut Rec, s: &Sol, what: &dyn Fn() -> String) {
        let e = refm::eval(&self.inst, s, 1.0);
        if e.over.iter().all(|o| *o <= 1e-9) {
            rec.check(e.total_dist >= self.last_cost - 2e-6 - 1e-9 * e.total_dist, BEST, || format!("feasible {s:?} costs {} but the recorded best {}: {}", e.total_dist, self.last_cost, what()));
        }
    }

    /// Looks at everything after one call of iterate.
    pub fn step(&mut self, rec: &mut Rec, ctx: &Context, ga: &GeneticAlgorithm, was_terminated: bool, what: &dyn Fn() -> String) {
        rec.states += 1;
        let n = self.inst.n();
        self.history(rec, ctx, what);
        let gen = *ctx.iteration.borrow();
        let new_gen = gen > self.gens;
        rec.check(gen == self.gens + new_gen as u64, END, || format!("generation count went from {} to {gen}: {}", self.gens, what()));
        rec.check(!(was_terminated && new_gen), END, || format!("a generation after the end: {}", what()));
        self.gens = gen;
        let (pen, int, inc, dec, target, limit, maxit) = {
            let c = ctx.config.borrow();
            (c.penalty_capacity, c.penalty_update_interval, c.penalty_inc_multiplier, c.penalty_dec_multiplier, c.feasibility_proportion_target, c.max_iterations_without_improvement, c.max_iterations)
        };
        if let Some(m) = maxit {
            rec.check(gen <= m, END, || format!("generation {gen} of at most {m}: {}", what()));
        }
        // Agreement of the two records.
        match &ga.best_solution {
            Some(b) => {
                rec.check(refm::close(b.penalized_cost(), self.last_cost), BEST, || format!("the algorithm's best costs {} but {} was recorded: {}", b.penalized_cost(), self.last_cost, what()));
                let s = b.phenotype.clone();
                judge_entry(rec, &self.inst, &s, b.penalized_cost(), self.fleet, what);
            }
            None => {
                rec.check(self.entries == 0, BEST, || format!("the algorithm has no best but {} was recorded: {}", self.last_cost, what()));
            }
        }
        // Members.
        for (sub, fe) in [(&ga.population.feasible, true), (&ga.population.infeasible, false)] {
            let mut known = BTreeMap::new();
            for i in &sub.population {
                rec.check(refm::complete(n, &i.phenotype) && i.genotype == i.phenotype.concat(), POP, || format!("member {:?} {:?} is broken: {}", i.genotype, i.phenotype, what()));
                known.insert(i.number, Mem { id: i.number, sol: i.phenotype.clone(), cost: i.penalized_cost() });
                if fe {
                    self.beaten(rec, &i.phenotype, what);
                }
                if self.pop {
                    let e = refm::cost(&self.inst, &i.phenotype, pen);
                    let props: &[&str] = if fe { &["C02", "C16"] } else { &["C02", "C16", "C19"] };
                    rec.check(refm::close(e, i.penalized_cost()), props, || format!("member {:?} has cost {} but it is {e} at penalty {pen}: {}", i.phenotype, i.penalized_cost(), what()));
                }
            }
            if self.pop {
                judge(rec, n, sub, fe, &self.par, &known, false, what);
            }
        }
        // The penalty and the restarts follow the generations.
        let c = &ga.child;
        let whole = refm::complete(n, &c.phenotype);
        if new_gen {
            rec.check(whole, &["C01", "C17"], || format!("offspring {:?} {:?} is not a partition: {}", c.genotype, c.phenotype, what()));
            self.beaten(rec, &c.phenotype, what);
            let restarted = ga.population.size() == 0;
            self.hist.push(c.is_feasible());
            self.hist.remove(0);
            if let Some(b) = self.rebuild.take() {
                // First generation after a (re)start.
                let want = ctx.config.borrow().initial_individuals;
                rec.check(b == want, END, || format!("{b} initial individuals were built instead of {want}: {}", what()));
            }
            if !restarted {
                rec.check(ga.population.feasible_history == self.hist, PEN, || format!("feasibility record differs from the individuals seen: {}", what()));
            }
            let frac = self.hist.iter().filter(|x| **x).count() as f64 / 100.0;
            let clear = (frac - (target - 0.05)).abs() > 1e-9 && (frac - (target + 0.05)).abs() > 1e-9;
            if self.it >= self.next_update {
                self.next_update += int;
                let want = if frac < target - 0.05 {
                    self.pen * inc
                } else if frac > target + 0.05 {
                    self.pen * dec
                } else {
                    self.pen
                };
                let want = want.min(1e7).max(1e-4);
                rec.check(!clear || refm::close(want, pen), PEN, || format!("penalty went from {} to {pen} instead of {want} (feasible {frac}, target {target}): {}", self.pen, what()));
            } else {
                rec.check(pen == self.pen, PEN, || format!("penalty changed from {} to {pen} between updates: {}", self.pen, what()));
            }
            // Improvement as the algorithm saw it.
            if ga.current_best_solution_cost < self.cur_best - 1e-9 {
                self.cur_best = ga.current_best_solution_cost;
                self.last_improved = self.it;
            }
            let due = self.it - self.last_improved > limit;
            rec.check(due == restarted, END, || format!("restart {restarted} at generation {} ({} after the last improvement, limit {limit}): {}", self.it, self.it - self.last_improved, what()));
            if restarted {
                self.restarts += 1;
                self.cur_best = f64::INFINITY;
                self.last_improved = self.it;
                self.next_update = self.it;
                self.hist = vec![true; 100];
            }
            self.it += 1;
        } else {
            if ga.current_best_solution_cost < self.cur_best - 1e-9 {
                self.cur_best = ga.current_best_solution_cost;
                self.last_improved = self.it;
            }
            self.hist = ga.population.feasible_history.clone();
            rec.check(ga.population.size() > 0 || self.hist == vec![true; 100], PEN, || format!("a new population starts with the feasibility record {:?}: {}", self.hist, what()));
            if ctx.config.borrow().repair_probability == 0.0 && !ctx.config.borrow().elite_education {
                self.rebuild = Some(ga.population.total_individuals_count);
            }
        }
        rec.check(pen <= 1e7 || self.inst.dem.iter().all(|d| *d == 0.0) || !self.pop, PEN, || format!("penalty {pen}: {}", what()));
        self.pen = pen;
    }
}

/// A configuration variant.
#[derive(Clone)]
pub struct Var {
    pub name: &'static str,
    pub f: fn(&mut Config),
}

pub fn small(c: &mut Config) {
    c.initial_individuals = 3;
    c.min_population_size = 2;
    c.population_lambda = 2;
    c.num_elites = 1;
    c.num_diversity_closest = 2;
    c.max_iterations = Some(4);
    c.penalty_update_interval = 1;
    c.max_iterations_without_improvement = 1000;
    c.time_limit = 1_000_000;
}

pub fn variants() -> Vec<Var> {
    vec![
        Var { name: "default", f: |_| () },
        Var { name: "norr", f: |c| c.rr_mutation = false },
        Var { name: "nols", f: |c| c.ls_enabled = false },
        Var { name: "plain", f: |c| {
            c.ls_enabled = false;
            c.rr_mutation = false;
            c.initial_individuals = 2;
            c.max_iterations = Some(6);
        } },
        Var { name: "repair", f: |c| {
            c.repair_probability = 1.0;
            c.rr_mutation = false;
            c.penalty_inc_multiplier = 3.0;
            c.feasibility_proportion_target = 1.0;
        } },
        Var { name: "repair_rr", f: |c| {
            c.repair_probability = 1.0;
            c.rr_gamma = 3.0;
            c.penalty_dec_multiplier = 0.1;
            c.feasibility_proportion_target = 0.0;
        } },
        Var { name: "restart0", f: |c| {
            c.max_iterations_without_improvement = 0;
            c.repair_probability = 0.0;
            c.rr_mutation = false;
            c.max_iterations = Some(7);
        } },
        Var { name: "restart1", f: |c| {
            c.max_iterations_without_improvement = 1;
            c.repair_probability = 0.0;
            c.initial_individuals = 2;
            c.max_iterations = Some(9);
            c.penalty_update_interval = 2;
            c.ls_enabled = false;
        } },
        Var { name: "restart2rep", f: |c| {
            c.max_iterations_without_improvement = 2;
            c.max_iterations = Some(9);
            c.rr_mutation = false;
            c.penalty_update_interval = 3;
        } },
        Var { name: "elite", f: |c| {
            c.elite_education = true;
            c.elite_education_gamma = 10.0;
            c.max_iterations = Some(2);
        } },
        Var { name: "elite_restart", f: |c| {
            c.elite_education = true;
            c.elite_education_gamma = 5.0;
            c.max_iterations_without_improvement = 0;
            c.rr_mutation = false;
            c.max_iterations = Some(4);
        } },
        Var { name: "quadratic", f: |c| {
            c.linear_split = false;
            c.split_capacity_factor = 1.0;
            c.rr_mutation = false;
        } },
        Var { name: "nostar_gran1", f: |c| {
            c.swap_star = false;
            c.local_search_granularity = 1;
            c.rr_mutation = false;
        } },
        Var { name: "tour3elites5", f: |c| {
            c.tournament_size = 3;
            c.num_elites = 5;
            c.initial_individuals = 4;
            c.min_population_size = 3;
            c.population_lambda = 1;
            c.rr_probability = 0.5;
        } },
        Var { name: "pop1", f: |c| {
            c.min_population_size = 1;
            c.population_lambda = 2;
            c.initial_individuals = 1;
            c.tournament_size = 1;
        } },
    ]
}

/// Runs one execution to its end and two calls beyond.
pub fn run_one(rec: &mut Rec, inst: &Inst, f: &dyn Fn(&mut Config), what: &dyn Fn() -> String) {
    let ctx = inst.ctx_with(|c| {
        small(c);
        f(c);
    });
    let mut ga = GeneticAlgorithm::new(&ctx);
    let mut w = Watch::new(inst, &ctx);
    let mut calls = 0;
    while !ga.terminated() {
        calls += 1;
        ga.iterate(&ctx);
        let over = ga.terminated();
        if !over || calls > 1 {
            w.step(rec, &ctx, &ga, over, what);
        }
        if rec.stop() {
            return;
        }
        if calls > 10_000 {
            rec.fail(END, || format!("no end after {calls} iterations: {}", what()));
            return;
        }
    }
    let m = ctx.config.borrow().max_iterations.unwrap();
    rec.check(w.gens == m, END, || format!("ended after {} generations instead of {m}: {}", w.gens, what()));
    let before = snapshot(&ctx, &ga);
    for _ in 0..2 {
        ga.iterate(&ctx);
        rec.check(ga.terminated(), END, || format!("resumed after the end: {}", what()));
    }
    let after = snapshot(&ctx, &ga);
    rec.check(before == after, END, || format!("an ended run changed from {before} to {after}: {}", what()));
    rec.traces += 1;
}

/// Everything observable that an ended run must not change.
pub fn snapshot(ctx: &Context, ga: &GeneticAlgorithm) -> String {
    let m = |s: &hybridcvrp::solver::genetic::SubPopulation| s.population.iter().map(|i| (i.number, i.phenotype.clone())).collect::<Vec<_>>();
    let h = ctx.search_history.borrow();
    format!("{:?} {:?} {:?} {:?} {} {} {}", m(&ga.population.feasible), m(&ga.population.infeasible), h.last_entry().map(|e| (e.solution.routes.clone(), e.solution.cost)), ctx.config.borrow().penalty_capacity, h.entries().len(), ctx.iteration.borrow(), ga.population.total_individuals_count)
}

/// Is `child` an offspring of a (zone) and b (rest)?
fn is_ox(child: &[usize], a: &[usize], b: &[usize]) -> bool {
    let n = child.len();
    (0..n).any(|start| (1..=n).any(|len| is_ox_of(child, a, b, start, len)))
}

/// The zone of `len` positions from `start` on is that of `a`, the rest in the cyclic order of `b`.
fn is_ox_of(child: &[usize], a: &[usize], b: &[usize], start: usize, len: usize) -> bool {
    let n = child.len();
    if (0..len).any(|k| child[(start + k) % n] != a[(start + k) % n]) {
        return false;
    }
    let zone: Vec<usize> = (0..len).map(|k| a[(start + k) % n]).collect();
    let got: Vec<usize> = (len..n).map(|k| child[(start + k) % n]).collect();
    let rest: Vec<usize> = b.iter().filter(|c| !zone.contains(c)).cloned().collect();
    rest.is_empty() || (0..rest.len()).any(|r| (0..rest.len()).all(|i| got[i] == rest[(i + r) % rest.len()]))
}

fn single(inst: &Inst) -> Inst {
    let tot: f64 = inst.dem.iter().sum();
    inst.with(&format!("{}_one", inst.name), |i| i.cap = tot.max(1.0) + 1.0)
}

fn crossover_unit(inst: Inst, pairs: Vec<(Vec<usize>, Vec<usize>)>, name: String) -> Unit {
    unit(name, move |rec| {
        for (a, b) in &pairs {
            let mut kids = std::collections::BTreeSet::new();
            let mut parents: Vec<Vec<usize>> = vec![];
            let (_, all) = oracle::explore(Policy::Stream(3), &oracle::REALS[..1], 5, None, 100_000, |_| {
                let what = || format!("{} parents {a:?} {b:?}", inst.describe());
                rec.guard(what, |rec| {
                    let ctx = inst.ctx_with(|c| {
                        small(c);
                        c.ls_enabled = false;
                        c.rr_mutation = false;
                        c.initial_individuals = 0;
                        c.tournament_size = 1;
                        c.repair_probability = 0.0;
                    });
                    // Initialization draws nothing that matters here.
                    let keep = oracle_pause();
                    let mut ga = GeneticAlgorithm::new(&ctx);
                    for p in [a, b] {
                        ga.population.add_individual(&ctx, ind(&ctx, &pad(vec![p.clone()], ctx.config.borrow().num_vehicles as usize)), true);
                    }
                    ga.iterate(&ctx);
                    ga.iterate(&ctx);
                    oracle_resume(keep);
                    let members: Vec<Vec<usize>> = ga.population.feasible.population.iter().map(|i| i.genotype.clone()).collect();
                    ga.iterate(&ctx);
                    let kid = ga.child.genotype.clone();
                    rec.transitions += 1;
                    rec.check(refm::is_perm(inst.n(), &kid), OX, || format!("offspring {kid:?} is no permutation: {}", what()));
                    let ok = members.iter().any(|x| members.iter().any(|y| is_ox(&kid, x, y)));
                    rec.check(ok, OX, || format!("offspring {kid:?} has no zone of one parent with the rest in the order of another: {}", what()));
                    kids.insert(kid);
                    parents = members;
                });
                !rec.stop()
            });
            rec.states += kids.len() as u64;
            // Every zone of two or more positions is possible, in either role of the parents.
            let n = inst.n();
            if all && n >= 2 && !rec.stop() {
                for x in &parents {
                    for y in &parents {
                        if x == y {
                            continue;
                        }
                        for start in 0..n {
                            for len in 2..=n {
                                rec.check(kids.iter().any(|k| is_ox_of(k, x, y, start, len)), OX, || format!("no offspring of {x:?} and {y:?} takes the {len} positions from {start} on from the former: {} parents {a:?} {b:?}", inst.describe()));
                            }
                        }
                    }
                }
            }
            if rec.stop() {
                return;
            }
        }
        rec.sample(|| format!("{} parent pairs", pairs.len()));
    })
}

type Paused = Option<Box<dyn fastrand::mc::Oracle>>;
fn oracle_pause() -> Paused {
    fastrand::mc::set(None)
}
fn oracle_resume(p: Paused) {
    let _ = fastrand::mc::set(p);
}

/// One penalty update at every feasible count, target, factor pair and start penalty.
fn penalty_unit(inst: Inst, target: f64, inc: f64, dec: f64, pens: Vec<f64>, step: usize) -> Unit {
    unit(format!("penalty/{}/t{target}i{inc}d{dec}", inst.name), move |rec| {
        let n = inst.n();
        let k = 3;
        let sols: Vec<Sol> = refm::canonical_solutions(n, k).into_iter().map(|s| pad(s, k)).collect();
        for pen in &pens {
            for cnt in (0..=100usize).step_by(step) {
                for arrange in 0..(if *pen == 0.5 { 4 } else { 2 }) {
                    let what = || format!("{} start penalty {pen} feasible {cnt}/100 target {target} factors {inc} {dec} arrangement {arrange}", inst.describe());
                    rec.guard(what, |rec| {
                        let _o = oracle::install(vec![], Policy::Stream(cnt as u64), &oracle::REALS, 0);
                        let ctx = inst.ctx_with(|c| {
                            small(c);
                            c.ls_enabled = false;
                            c.rr_mutation = false;
                            c.repair_probability = 0.0;
                            c.initial_individuals = 0;
                            c.min_population_size = 20;
                            c.population_lambda = 20;
                            c.feasibility_proportion_target = target;
                            c.penalty_inc_multiplier = inc;
                            c.penalty_dec_multiplier = dec;
                        });
                        ctx.config.borrow_mut().num_vehicles = k as u64;
                        ctx.config.borrow_mut().penalty_capacity = *pen;
                        let mut ga = GeneticAlgorithm::new(&ctx);
                        // Populations of other sizes too, down to one or two members of a kind.
                        let members = [16usize, 2, 5, 3, 1][cnt % 5];
                        for s in sols.iter().step_by((sols.len() / members.min(12)).max(1)).take(members) {
                            ga.population.add_individual(&ctx, ind(&ctx, s), false);
                        }
                        ga.iterate(&ctx);
                        ga.iterate(&ctx);
                        let mut h: Vec<bool> = (0..100).map(|i| if arrange % 2 == 0 { i < cnt } else { i >= 100 - cnt }).collect();
                        if arrange < 2 {
                            ga.population.feasible_history = h.clone();
                        } else {
                            // Recorded one by one, after others or on top of the record of a new population.
                            let (yes, no): (Vec<&Sol>, Vec<&Sol>) = sols.iter().partition(|s| refm::eval(&inst, s, 1.0).feasible);
                            if yes.is_empty() || no.is_empty() {
                                return;
                            }
                            if arrange == 2 {
                                h = (0..29).map(|i| i % 3 == 0).chain(h).collect();
                            } else {
                                h = (0..100 - cnt).map(|i| i % 7 == 3).collect();
                            }
                            for (i, f) in h.iter().enumerate() {
                                let v = if *f { &yes } else { &no };
                                ga.population.add_individual(&ctx, ind(&ctx, v[(i * i) % v.len()]), true);
                            }
                            h = (0..100).map(|_| true).chain(h).collect();
                            h.drain(..h.len() - 100);
                            let got = ga.population.history_fraction() * 100.0;
                            let want = h.iter().filter(|x| **x).count() as f64;
                            rec.check((got - want).abs() < 1e-6, PEN, || format!("{got} of the last 100 feasible instead of {want}: {}", what()));
                        }
                        ga.iterate(&ctx);
                        rec.transitions += 1;
                        rec.states += 1;
                        let mut h2 = h;
                        h2.push(ga.child.is_feasible());
                        h2.remove(0);
                        let c2 = h2.iter().filter(|x| **x).count() as f64;
                        let diff = c2 - target * 100.0;
                        // Exactly at the limit: judged where no rounding is involved in any way to compute it.
                        let f = c2 / 100.0;
                        let near = |a: f64| (a.abs() - 5.0).abs() < 1e-6;
                        let exact = f != target - 0.05 || target - f > 0.05 || f + 0.05 < target;
                        let exact2 = f != target + 0.05 || f - target > 0.05 || f - 0.05 > target;
                        if near(diff) && if diff < 0.0 { exact } else { exact2 } {
                            return;
                        }
                        let diff = if near(diff) { 0.0 } else { diff };
                        let want = if diff < -5.0 {
                            pen * inc
                        } else if diff > 5.0 {
                            pen * dec
                        } else {
                            *pen
                        };
                        let want = want.min(1e7).max(1e-4);
                        let got = ctx.config.borrow().penalty_capacity;
                        rec.check((want - got).abs() <= 1e-9 * want, PEN, || format!("penalty {got} instead of {want} with {c2} of 100 feasible: {}", what()));
                        let inf = &ga.population.infeasible.population;
                        for i in inf {
                            let e = refm::cost(&inst, &i.phenotype, got);
                            rec.check(refm::close(e, i.penalized_cost()), PEN, || format!("infeasible {:?} still costs {} instead of {e}: {}", i.phenotype, i.penalized_cost(), what()));
                        }
                        for w in inf.windows(2) {
                            rec.check(w[0].penalized_cost() <= w[1].penalized_cost() + 2e-6, PEN, || format!("infeasible members not in cost order: {}", what()));
                        }
                    });
                    if rec.stop() {
                        return;
                    }
                }
            }
        }
    })
}

fn initial_penalty_unit() -> Unit {
    unit("initial_penalty", move |rec| {
        for n in 1..=5 {
            for base in family(n) {
                for scale in [1e-9, 1e-3, 1.0, 1e4, 1e9] {
                    for limit in [0u64, base.size_limit, n as u64, n as u64 + 1] {
                        let inst = base.with("scaled", |i| {
                            i.size_limit = limit;
                            if i.lower.is_none() && !i.rounded {
                                for p in i.xy.iter_mut() {
                                    *p = (p.0 * scale, p.1 * scale);
                                }
                            } else {
                                for d in i.dem.iter_mut() {
                                    *d *= scale;
                                }
                                i.cap *= scale;
                            }
                        });
                        rec.guard(|| inst.describe(), |rec| {
                            let _o = oracle::install(vec![], Policy::First, &oracle::REALS, 0);
                            let ctx = inst.ctx();
                            rec.states += 1;
                            let got = ctx.config.borrow().penalty_capacity;
                            let maxd = (0..=n).flat_map(|i| (0..=n).map(move |j| (i, j))).map(|(i, j)| inst.d(i, j)).fold(0.0, f64::max);
                            let maxq = inst.dem.iter().cloned().fold(0.0, f64::max);
                            if maxq == 0.0 {
                                return;
                            }
                            let known = ctx.matrix_provider.distance.max().is_some();
                            rec.check(known || inst.size_limit <= n as u64 + 1, PEN, || format!("no maximum known: {}", inst.describe()));
                            let want = if known { (maxd / maxq).min(1e4).max(1e-4) } else { 100.0 };
                            rec.check((want - got).abs() <= 1e-9 * want, PEN, || format!("initial penalty {got} instead of {want}: {}", inst.describe()));
                            // Restoring gives the same value whatever it was meanwhile.
                            for p in [0.0, 1.0, 1e12] {
                                ctx.config.borrow_mut().penalty_capacity = p;
                                ctx.reset_penalty();
                                let again = ctx.config.borrow().penalty_capacity;
                                rec.check(again == got, PEN, || format!("restored penalty {again} instead of {got}: {}", inst.describe()));
                            }
                        });
                    }
                }
            }
        }
    })
}

/// Elite education: the penalty moves meanwhile and is restored after it.
fn elite_unit(inst: Inst, gamma: f64, time: bool) -> Unit {
    unit(format!("elite/{}/g{gamma}t{time}", inst.name), move |rec| {
        for s in 0..6u64 {
            let what = || format!("{} stream {s}", inst.describe());
            rec.guard(what, |rec| {
                let _o = oracle::install(vec![], Policy::Stream(s), &oracle::REALS, 0);
                clock::start(1_000_000_000_000, if time { 10_000_000 } else { 0 }, vec![]);
                let ctx = inst.ctx_with(|c| {
                    small(c);
                    c.elite_education = true;
                    c.elite_education_gamma = gamma;
                    c.elite_education_time_based = time;
                    c.time_limit = 1000;
                    c.elite_education_time_fraction = 0.02;
                    c.penalty_inc_multiplier = 1.5;
                    c.penalty_dec_multiplier = 0.5;
                    c.max_iterations_without_improvement = 1;
                    c.max_iterations = None;
                });
                let first = ctx.config.borrow().penalty_capacity;
                let mut ga = GeneticAlgorithm::new(&ctx);
                let mut w = Watch::new(&inst, &ctx);
                let mut moved = false;
                let mut left = false;
                // The first start and two restarts.
                let mut starts = 0;
                let mut educating = true;
                for _ in 0..10_000 {
                    ga.iterate(&ctx);
                    rec.states += 1;
                    w.history(rec, &ctx, &what);
                    let p = ctx.config.borrow().penalty_capacity;
                    if let Some(b) = &ga.best_solution {
                        rec.check(refm::close(b.penalized_cost(), w.last_cost), BEST, || format!("the algorithm's best costs {} but {} was recorded: {}", b.penalized_cost(), w.last_cost, what()));
                    } else {
                        rec.check(w.entries == 0, BEST, || format!("the algorithm has no best but {} was recorded: {}", w.last_cost, what()));
                    }
                    if !educating {
                        educating = ga.population.size() == 0;
                    } else if ga.population.size() > 0 {
                        rec.check(p == first, PEN, || format!("penalty {p} after elite education instead of {first} (it had moved: {moved}): {}", what()));
                        educating = false;
                        starts += 1;
                        if starts == 3 {
                            left = true;
                            break;
                        }
                    }
                    moved |= p != first;
                }
                clock::clear();
                rec.check(left, &["C20", "C19"], || format!("elite education or the generations between do not end (start {starts}): {}", what()));
                rec.transitions += moved as u64;
                rec.traces += 1;
            });
            clock::clear();
            if rec.stop() {
                return;
            }
        }
    })
}

/// The clock passes the limit before a given call of iterate; and not quite.
fn time_unit(inst: Inst, var: Var, name: String, limit: u64) -> Unit {
    unit(name, move |rec| {
        for at in 0..40u64 {
            for (short, frac) in [(1u64, 1u64), (1, 999_999_999), (0, 0), (0, 5)] {
                if short > limit || (limit == 0 && at > 0) {
                    continue;
                }
                let what = || format!("{} {} limit {limit}s reached at call {at} (minus {short}s plus {frac}ns)", inst.describe(), var.name);
                let mut over = false;
                rec.guard(what, |rec| {
                    let _o = oracle::install(vec![], Policy::Stream(at), &oracle::REALS, 0);
                    clock::start(1_000_000_000_000, 0, vec![]);
                    let ctx = inst.ctx_with(|c| {
                        small(c);
                        (var.f)(c);
                        c.time_limit = limit;
                        c.max_iterations = None;
                    });
                    let mut ga = GeneticAlgorithm::new(&ctx);
                    for call in 0..at + 3 {
                        if call == at {
                            clock::advance((limit - short.min(limit)) * 1_000_000_000 + frac);
                        }
                        let before = snapshot(&ctx, &ga);
                        ga.iterate(&ctx);
                        rec.states += 1;
                        let reached = call >= at && short == 0;
                        rec.check(ga.terminated() == reached, END, || format!("ended={} at call {call} with {}ns elapsed: {}", ga.terminated(), ctx.elapsed().as_nanos(), what()));
                        if reached {
                            let after = snapshot(&ctx, &ga);
                            rec.check(before == after, END, || format!("the call that ended the run changed {before} to {after}: {}", what()));
                        }
                    }
                    rec.transitions += 1;
                    over = *ctx.iteration.borrow() > 12;
                    clock::clear();
                });
                clock::clear();
                if rec.stop() {
                    return;
                }
                if over {
                    return;
                }
            }
        }
    })
}

/// All iteration limits and restart limits with nothing else going on.
fn limits_unit(inst: Inst, m: u64, restart: u64) -> Unit {
    unit(format!("limits/{}/m{m}r{restart}", inst.name), move |rec| {
        for init in [1u64, 2, 4] {
            for s in 0..6 {
                let what = || format!("{} max {m} restart {restart} initial {init} stream {s}", inst.describe());
                rec.guard(what, |rec| {
                    let _o = oracle::install(vec![], Policy::Stream(s), &oracle::REALS, 0);
                    run_one(
                        rec,
                        &inst,
                        &|c| {
                            c.max_iterations = Some(m);
                            c.max_iterations_without_improvement = restart;
                            c.initial_individuals = init;
                            c.rr_mutation = false;
                            c.repair_probability = 0.0;
                            c.ls_enabled = s % 2 == 0;
                        },
                        &what,
                    );
                });
                if rec.stop() {
                    return;
                }
            }
        }
    })
}

/// The question whether the run is over, for every combination of boundary values.
fn over_unit(inst: Inst) -> Unit {
    unit("over", move |rec| {
        let t: Vec<u64> = vec![0, 1, 2, 59, 60, 255, 256, 257, 3599, 3600, 65_535, 65_536, 65_537, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 10_000_000_000];
        let m: Vec<u64> = t.iter().copied().chain([(1 << 53) + 1, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX]).collect();
        clock::start(1_000_000_000, 0, vec![]);
        let ctx = inst.ctx();
        let start = 1_000_000_000;
        for &passed in &t {
            for frac in [0u64, 1, 500_000_000, 999_999_999] {
                clock::start(start + passed * 1_000_000_000 + frac, 0, vec![]);
                for &limit in &m {
                    let values = m.iter().map(|x| Some(*x)).chain([None]);
                    for max in values {
                        for &done in &m {
                            let near = max.is_some_and(|x| x.abs_diff(done) <= 1) || frac == 0;
                            if !near {
                                continue;
                            }
                            {
                                let mut c = ctx.config.borrow_mut();
                                c.time_limit = limit;
                                c.max_iterations = max;
                            }
                            *ctx.iteration.borrow_mut() = done;
                            let got = ctx.terminate();
                            let want = passed >= limit || max.is_some_and(|x| done >= x);
                            rec.states += 1;
                            rec.check(got == want, END, || format!("the run is over={got} after {passed}.{frac:09} s of {limit} s and {done} generations of {max:?}"));
                        }
                    }
                }
                if rec.stop() {
                    return;
                }
            }
        }
        rec.traces += 1;
        clock::clear();
    })
}

fn explore_unit(inst: Inst, var: Var, pol: Policy, pname: String, horizon: usize, devs: usize, max: u64) -> Unit {
    unit(format!("run/{}{}/{}/{pname}", inst.name, inst.n(), var.name), move |rec| {
        let (n, all) = oracle::explore(pol, &oracle::REALS, horizon, Some(devs), max, |st| {
            let st = st.clone();
            let what = || format!("{} {} choices {:?}", inst.describe(), var.name, st.borrow().trace.iter().map(|c| c.c).collect::<Vec<_>>());
            rec.guard(what, |rec| run_one(rec, &inst, &var.f, &what));
            !rec.stop()
        });
        rec.transitions += n;
        let _ = all;
        rec.sample(|| format!("{n} executions, all within the bound: {all}"));
    })
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    // Crossover.
    for n in 1..=4 {
        let inst = single(&family(n)[0]);
        let mut all = vec![];
        refm::perms(n, &mut |p| all.push(p.to_vec()));
        for (i, a) in all.iter().enumerate() {
            let pairs: Vec<_> = all.iter().map(|b| (a.clone(), b.clone())).collect();
            v.push(crossover_unit(inst.clone(), pairs, format!("ox/n{n}/{i}")));
        }
    }
    for n in if th { vec![5, 6] } else { vec![5] } {
        for (fi, fam) in [0usize, 2].iter().enumerate() {
            let inst = single(&family(n)[*fam]);
            let mut all = vec![];
            refm::perms(n, &mut |p| all.push(p.to_vec()));
            let step = match (n, th) {
                (5, false) => 13,
                (5, true) => 1,
                _ => 90,
            };
            for (i, a) in all.iter().enumerate().step_by(step) {
                if fi == 1 && i % 4 != 0 {
                    continue;
                }
                for (ci, chunk) in all.chunks(120).enumerate() {
                    let pairs: Vec<_> = chunk.iter().map(|b| (a.clone(), b.clone())).collect();
                    v.push(crossover_unit(inst.clone(), pairs, format!("ox/n{n}f{fam}/{i}/{ci}")));
                }
            }
        }
    }
    // Penalty.
    v.push(initial_penalty_unit());
    v.push(over_unit(family(2)[0].clone()));
    for target in [0.0, 0.2, 0.43, 0.5, 1.0] {
        for (inc, dec) in [(1.2, 0.85), (3.0, 0.25), (1e5, 1e-5)] {
            for (fi, inst) in family(4).into_iter().enumerate() {
                if !th && fi > 1 && (target != 0.2 || inc > 1.2) {
                    continue;
                }
                v.push(penalty_unit(inst, target, inc, dec, vec![1e-4, 2e-4, 0.5, 40.0, 9e6, 1e7], if th { 1 } else { 1 + 3 * (fi > 0) as usize }));
            }
        }
    }
    for inst in family(4) {
        v.push(elite_unit(inst.clone(), 1000.0, false));
        v.push(elite_unit(inst.clone(), 300.0, false));
        v.push(elite_unit(inst, 300.0, true));
    }
    // Ends and restarts.
    for inst in family(3).into_iter().take(if th { 7 } else { 2 }) {
        for m in 0..=6 {
            for r in 0..=4 {
                v.push(limits_unit(inst.clone(), m, r));
            }
        }
        for r in 0..=7 {
            v.push(limits_unit(inst.clone(), 25, r));
        }
        for (vi, var) in variants().into_iter().enumerate() {
            if th || [0, 3, 6, 9].contains(&vi) {
                for limit in [0u64, 1, 7, 70_000, 5_000_000_000] {
                    if limit > 7 && vi > 0 {
                        continue;
                    }
                    v.push(time_unit(inst.clone(), var.clone(), format!("time/{}/{}/{limit}", inst.name, var.name), limit));
                }
            }
        }
    }
    // Whole runs.
    let ns: Vec<usize> = if th { vec![1, 2, 3, 4, 5] } else { vec![1, 3, 4] };
    let pols: Vec<(Policy, String)> = {
        let mut p = vec![(Policy::Stream(11), "s11".to_string())];
        if th {
            p.push((Policy::First, "first".into()));
            p.push((Policy::Last, "last".into()));
            for s in 12..16 {
                p.push((Policy::Stream(s), format!("s{s}")));
            }
        }
        p
    };
    for n in ns {
        for inst in family(n) {
            for var in variants() {
                for (p, pn) in &pols {
                    let h = if th { 400 } else { 120 };
                    v.push(explore_unit(inst.clone(), var.clone(), *p, pn.clone(), h, 1, 100_000));
                }
                if th && n == 3 {
                    v.push(explore_unit(inst.clone(), var.clone(), Policy::Stream(21), "d2".into(), 40, 2, 100_000));
                }
            }
        }
    }
    // Fixed long runs: more generations, more customers.
    for n in [5usize, 7, 9] {
        for inst in family(n) {
            for var in variants() {
                let inst = inst.clone();
                v.push(unit(format!("long/{}{n}/{}", inst.name, var.name), move |rec| {
                    for s in 0..if th { 12 } else { 2 } {
                        let what = || format!("{} {} stream {s}", inst.describe(), var.name);
                        rec.guard(what, |rec| {
                            let _o = oracle::install(vec![], Policy::Stream(100 + s), &oracle::REALS, 0);
                            let mut r = Lcg(s);
                            let (init, gens) = (2 + r.below(8) as u64, 10 + r.below(25) as u64);
                            let vf = var.f;
                            run_one(rec, &inst, &|c| {
                                vf(c);
                                c.initial_individuals = init;
                                c.max_iterations = Some(gens);
                            }, &what);
                        });
                        if rec.stop() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // Settings of the size users work with (the shipped ones and larger), few customers.
    let sizes: Vec<(&'static str, fn(&mut Config))> = vec![
        ("shipped", |c| {
            let d = Config::default();
            c.initial_individuals = d.initial_individuals;
            c.min_population_size = d.min_population_size;
            c.population_lambda = d.population_lambda;
            c.num_elites = d.num_elites;
            c.num_diversity_closest = d.num_diversity_closest;
            c.penalty_update_interval = d.penalty_update_interval;
            c.max_iterations = Some(800);
        }),
        ("many", |c| {
            c.initial_individuals = 150;
            c.min_population_size = 60;
            c.population_lambda = 90;
            c.num_elites = 20;
            c.num_diversity_closest = 12;
            c.tournament_size = 7;
            c.penalty_update_interval = 130;
            c.max_iterations = Some(700);
        }),
        ("impatient", |c| {
            c.initial_individuals = 70;
            c.min_population_size = 10;
            c.population_lambda = 20;
            c.penalty_update_interval = 100;
            c.max_iterations_without_improvement = 270;
            c.max_iterations = Some(1400);
        }),
        ("patient", |c| {
            c.initial_individuals = 4;
            c.min_population_size = 4;
            c.population_lambda = 4;
            c.penalty_update_interval = 300;
            c.max_iterations_without_improvement = 1100;
            c.max_iterations = Some(2600);
            c.ls_enabled = false;
        }),
    ];
    for (n, k) in [(3usize, 1usize), (5, 0), (6, 4), (8, 2), (9, 7)] {
        for (name, f) in sizes.clone() {
            let inst = family(n)[k].clone();
            v.push(unit(format!("scale/{}{n}/{name}", inst.name), move |rec| {
                for s in 0..if th { 6 } else { 1 } {
                    let what = || format!("{} sizes {name}, stream {s}", inst.describe());
                    rec.guard(what, |rec| {
                        let o = oracle::install(vec![], Policy::Stream(300 + s), &oracle::REALS, 0);
                        o.borrow_mut().limit = 2_000_000_000;
                        run_one(rec, &inst, &|c| {
                            c.rr_gamma = 1.0;
                            f(c);
                            if s % 2 == 1 {
                                c.repair_probability = 0.0;
                            }
                        }, &what);
                    });
                    if rec.stop() {
                        return;
                    }
                }
            }));
        }
    }
    // Many customers, in one long route and in many.
    for n in if th { vec![120usize, 260, 320, 700, 1200, 2500] } else { vec![120, 320, 700] } {
        for kind in 0..4 {
            for wide in [false, true] {
                v.push(unit(format!("wide/{n}k{kind}/{wide}"), move |rec| {
                    let mut inst = crate::inst::large(n, kind);
                    if wide {
                        inst.cap = inst.dem.iter().sum::<f64>() + 1.0;
                    }
                    for s in 0..if th && n < 1000 { 4 } else { 1 } {
                        let what = || format!("{n} customers, shape {kind}, one route {wide}, stream {s}");
                        rec.guard(what, |rec| {
                            let _o = oracle::install(vec![], Policy::Stream(7 + s), &oracle::REALS, 0);
                            run_one(rec, &inst, &|c| {
                                c.initial_individuals = 2;
                                c.max_iterations = Some(5);
                                c.rr_gamma = 0.5;
                            }, &what);
                        });
                        if rec.stop() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    v
}
