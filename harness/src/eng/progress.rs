//! What a run tells about itself: statistics, progress lines and announcements.
use super::population::alphabet;
use super::*;
use crate::clock;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst, Lcg};
use crate::oracle::{self, Policy};
use crate::refm;
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::{GeneticAlgorithm, Population, SubPopulation};
use hybridcvrp::solver::Metaheuristic;
use std::cell::RefCell;

pub static ENGINE: Engine = Engine { name: "progress", tags: &["C33"], units };
const P: &[&str] = &["C33"];

thread_local! {
    static LINES: RefCell<Option<Vec<(log::Level, String)>>> = const { RefCell::new(None) };
}

struct Capture;
impl log::Log for Capture {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LINES.with(|l| l.borrow().is_some())
    }
    fn log(&self, r: &log::Record) {
        LINES.with(|l| {
            if let Some(l) = l.borrow_mut().as_mut() {
                l.push((r.level(), r.args().to_string()));
            }
        });
    }
    fn flush(&self) {}
}
static CAPTURE: Capture = Capture;

/// Keeps what is logged on this thread.
fn capture() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        log::set_logger(&CAPTURE).expect("HARNESS logger");
        log::set_max_level(log::LevelFilter::Debug);
    });
    LINES.with(|l| *l.borrow_mut() = Some(vec![]));
}
fn release() {
    LINES.with(|l| *l.borrow_mut() = None);
}
fn taken() -> Vec<(log::Level, String)> {
    LINES.with(|l| l.borrow_mut().as_mut().map(std::mem::take).unwrap_or_default())
}

/// The numbers of a text, however they are labelled.
fn numbers(s: &str) -> Vec<f64> {
    s.split(|c: char| c.is_whitespace() || "|,;:()=".contains(c)).filter(|t| t.starts_with(|c: char| c.is_ascii_digit() || c == '-')).filter_map(|t| t.parse().ok()).collect()
}

/// Printed with two decimals, or more exactly.
fn printed(got: f64, want: f64) -> bool {
    (got - want).abs() <= 0.005 + 1e-6 + want.abs() * 1e-9
}

struct Stats {
    size: usize,
    best: f64,
    average: f64,
    diversity: f64,
}

/// By definition, from the members.
fn stats(n: usize, sub: &SubPopulation, min: usize) -> Stats {
    let m = &sub.population;
    let top = m.len().min(min);
    if top == 0 {
        return Stats { size: 0, best: 0.0, average: -1.0, diversity: -1.0 };
    }
    let average = m[..top].iter().map(|i| i.penalized_cost()).sum::<f64>() / top as f64;
    // Pairs are compared when the younger of the two joins.
    let dist = |x: &Individual, y: &Individual| if x.number < y.number { refm::broken_pairs(&x.phenotype, &y.phenotype, n) } else { refm::broken_pairs(&y.phenotype, &x.phenotype, n) };
    let mut total = 0.0;
    for (a, x) in m[..top].iter().enumerate() {
        let mut d: Vec<i64> = m.iter().enumerate().filter(|(b, _)| *b != a).map(|(_, y)| dist(x, y)).collect();
        d.sort();
        d.truncate(top);
        if !d.is_empty() {
            total += d.iter().sum::<i64>() as f64 / d.len() as f64;
        }
    }
    let best = m.iter().map(|i| i.penalized_cost()).fold(f64::INFINITY, f64::min);
    Stats { size: m.len(), best, average, diversity: total / top as f64 }
}

fn judge(rec: &mut Rec, ctx: &Context, n: usize, pop: &Population, what: &dyn Fn() -> String) {
    let min = ctx.config.borrow().min_population_size as usize;
    for (sub, name) in [(&pop.feasible, "feasible"), (&pop.infeasible, "infeasible")] {
        let s = stats(n, sub, min);
        rec.check(sub.size() == s.size, P, || format!("{name} size {} instead of {}: {}", sub.size(), s.size, what()));
        for (w, got, want) in [("best cost", sub.get_best_cost(), s.best), ("average cost", sub.get_average_cost(ctx), s.average), ("diversity", sub.get_diversity(ctx), s.diversity)] {
            rec.check((got - want).abs() <= 2e-6 + 1e-9 * want.abs(), P, || format!("{name} {w} {got} instead of {want} of members {:?}: {}", sub.population.iter().map(|i| (&i.phenotype, i.penalized_cost())).collect::<Vec<_>>(), what()));
        }
        match sub.get_best() {
            None => rec.check(s.size == 0, P, || format!("{name} has {} members but no best: {}", s.size, what())),
            Some(b) => rec.check(s.size > 0 && (b.penalized_cost() - s.best).abs() < 2e-6, P, || format!("{name} best costs {} instead of {}: {}", b.penalized_cost(), s.best, what())),
        };
    }
    rec.check(pop.size() == pop.feasible.population.len() + pop.infeasible.population.len(), P, || format!("size {}: {}", pop.size(), what()));
    let yes = pop.feasible_history.iter().filter(|x| **x).count() as f64 / pop.feasible_history.len() as f64;
    rec.check((pop.history_fraction() - yes).abs() < 1e-9, P, || format!("feasible fraction {} instead of {yes}: {}", pop.history_fraction(), what()));
}

/// Every sequence of additions, judged in the end (all prefixes are sequences of their own).
fn sequences(inst: Inst, min: u64, lambda: u64, depth: usize, pool: usize) -> Unit {
    unit(format!("statistics/{}{}/{min}+{lambda}", inst.name, inst.n()), move |rec| {
        let pen = 2.0;
        let ctx = inst.ctx_k(3, pen, |c| {
            c.min_population_size = min;
            c.population_lambda = lambda;
            c.num_elites = 1;
            c.num_diversity_closest = 2;
        });
        let mut sols = alphabet(&inst, 3, pool, true, pen);
        sols.extend(alphabet(&inst, 3, pool - pool / 2, false, pen));
        let inds: Vec<_> = sols.iter().map(|s| ind(&ctx, s)).collect();
        let m = inds.len();
        if m == 0 {
            return;
        }
        for d in 0..=depth {
            for code in 0..m.pow(d as u32) {
                let seq: Vec<usize> = (0..d).map(|i| code / m.pow(i as u32) % m).collect();
                let what = || format!("{} members at least {min}, {lambda} more, additions {:?}", inst.describe(), seq.iter().map(|i| &sols[*i]).collect::<Vec<_>>());
                rec.guard(what, |rec| {
                    let mut pop = Population::new(&ctx);
                    for i in &seq {
                        pop.add_individual(&ctx, inds[*i].clone(), i % 2 == 0);
                        rec.transitions += 1;
                    }
                    judge(rec, &ctx, inst.n(), &pop, &what);
                });
                rec.states += 1;
                rec.traces += 1;
                if rec.stop() {
                    return;
                }
            }
        }
    })
}

/// A run, everything it says after each iteration.
fn run_one(rec: &mut Rec, inst: &Inst, f: &dyn Fn(&mut Config), what: &dyn Fn() -> String) {
    let n = inst.n();
    clock::start(5_000_000_000, 0, vec![]);
    let ctx = inst.ctx_with(|c| {
        super::ga::small(c);
        f(c);
    });
    let start = clock::now().unwrap();
    let mut ga = GeneticAlgorithm::new(&ctx);
    capture();
    let (mut entries, mut messages, mut gens) = (0usize, 0usize, 0u64);
    // The next progress line is due at this generation.
    let mut due = 0u64;
    // Members so far in this start; elite education under way.
    let mut educating = false;
    let mut improved = 0u64;
    let mut cur = f64::INFINITY;
    let every = ctx.config.borrow().log_interval;
    let elite = {
        let c = ctx.config.borrow();
        c.elite_education && n > c.elite_education_problem_size_limit
    };
    let mut fresh = true;
    let mut guard = 0;
    while !ga.terminated() && guard < 20_000 {
        guard += 1;
        let pop_before = ga.population.size();
        clock::advance(370_000_000 + 1_000_000 * guard);
        let (it, total_before) = (ga.iterations, ga.population.total_individuals_count);
        ga.iterate(&ctx);
        rec.states += 1;
        rec.transitions += 1;
        let gen = *ctx.iteration.borrow() > gens;
        gens = *ctx.iteration.borrow();
        let restarted = gen && ga.population.size() == 0;
        let seconds = (clock::now().unwrap() - start) as f64 / 1e9;
        judge(rec, &ctx, n, &ga.population, what);
        // Announcements.
        let h = ctx.search_history.borrow();
        let costs: Vec<f64> = h.entries()[entries.min(h.entries().len())..].iter().map(|e| e.solution.cost).collect();
        let msgs: Vec<&String> = h.messages[messages.min(h.messages.len())..].iter().map(|m| &m.message).collect();
        entries = h.entries().len();
        messages = h.messages.len();
        let told: Vec<Vec<f64>> = msgs.iter().map(|m| numbers(m)).collect();
        let bests: Vec<f64> = told.iter().filter_map(|t| t.first().copied()).collect();
        rec.check(bests.len() == costs.len() && bests.iter().zip(&costs).all(|(a, b)| printed(*a, *b)), P, || format!("new bests {costs:?} are announced as {msgs:?} in iteration {guard}: {}", what()));
        let plain = told.iter().filter(|t| t.is_empty()).count();
        rec.check(plain == restarted as usize, P, || format!("messages {msgs:?}, restarted: {restarted}, in iteration {guard}: {}", what()));
        let lines = taken();
        let infos: Vec<&String> = lines.iter().filter(|(l, _)| *l == log::Level::Info).map(|(_, s)| s).filter(|s| s.contains("est")).collect();
        let shown: Vec<f64> = infos.iter().filter_map(|s| numbers(s).last().copied()).collect();
        rec.check(shown.len() == costs.len() && shown.iter().zip(&costs).all(|(a, b)| printed(*a, *b)), P, || format!("new bests {costs:?} are logged as {infos:?} in iteration {guard}: {}", what()));
        drop(h);
        // Improvement as the algorithm saw it.
        if restarted {
            cur = f64::INFINITY;
        } else if ga.current_best_solution_cost < cur - 1e-9 {
            cur = ga.current_best_solution_cost;
            improved = it;
        }
        // The progress line.
        let ended = educating && ga.population.total_individuals_count > total_before && !gen;
        let reports: Vec<(&String, Vec<f64>)> = lines.iter().filter(|(l, _)| *l == log::Level::Debug).map(|(_, s)| (s, numbers(s))).filter(|(_, v)| v.len() == 13).collect();
        let want = ended || gen && it >= due;
        rec.check(reports.len() == want as usize, P, || format!("{} progress lines in iteration {guard} (generation {it}, the next was due at {due}, elite education ended: {ended}): {}", reports.len(), what()));
        if ended {
            educating = false;
        }
        if want {
            due += every;
        }
        if let (Some((text, v)), false) = (reports.first(), restarted) {
            let min = ctx.config.borrow().min_population_size as usize;
            let (a, b) = (stats(n, &ga.population.feasible, min), stats(n, &ga.population.infeasible, min));
            let yes = ga.population.feasible_history.iter().filter(|x| **x).count() as f64 / 100.0;
            let w = [seconds, it as f64, (it - improved) as f64, a.size as f64, a.best, a.average, b.size as f64, b.best, b.average, a.diversity / n as f64, b.diversity / n as f64, yes, ctx.config.borrow().penalty_capacity];
            let bad = (0..13).find(|&i| !printed(v[i], w[i]));
            rec.check(bad.is_none(), P, || format!("the line {text:?} should say {w:?} (entry {bad:?}) in iteration {guard}: {}", what()));
            rec.check((ga.diversity - a.diversity / n as f64).abs() < 1e-9, P, || format!("diversity {} instead of {}: {}", ga.diversity, a.diversity / n as f64, what()));
        }
        if restarted {
            due = it;
            improved = it;
            educating = false;
            fresh = true;
        } else if fresh && pop_before == 0 && !gen {
            educating = elite;
            fresh = false;
        }
        if rec.stop() {
            break;
        }
    }
    rec.traces += 1;
    release();
    clock::clear();
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    for n in [1usize, 2, 3, 4] {
        for inst in family(n) {
            for (min, lambda) in [(1u64, 1u64), (2, 2), (3, 3), (6, 2)] {
                v.push(sequences(inst.clone(), min, lambda, if th { 5 } else { 4 }, if th { 8 } else { 7 }));
            }
        }
    }
    for n in 1..=if th { 6usize } else { 5 } {
        for inst in family(n) {
            for var in super::ga::variants() {
                let (inst, var) = (inst.clone(), var.clone());
                v.push(unit(format!("run/{}{n}/{}", inst.name, var.name), move |rec| {
                    for every in [0u64, 1, 2, 7, 100] {
                        for s in 0..if th { 6 } else { 2 } {
                            let what = || format!("{} {} stream {s}, a line every {every} generations", inst.describe(), var.name);
                            rec.guard(what, |rec| {
                                let _o = oracle::install(vec![], Policy::Stream(400 + s), &oracle::REALS, 0);
                                let mut r = Lcg(s + every);
                                let (init, gens) = (1 + r.below(8) as u64, 8 + r.below(25) as u64);
                                let vf = var.f;
                                run_one(rec, &inst, &|c| {
                                    c.elite_education_problem_size_limit = 0;
                                    vf(c);
                                    c.initial_individuals = init;
                                    c.max_iterations = Some(gens);
                                    c.log_interval = every;
                                    if s % 2 == 1 {
                                        c.min_population_size = 5;
                                        c.population_lambda = 6;
                                    }
                                }, &what);
                            });
                            release();
                            clock::clear();
                            oracle::clear();
                            if rec.stop() {
                                return;
                            }
                        }
                    }
                }));
            }
        }
    }
    // Improvements throughout, also in later starts: no local search.
    for (n, kind) in [(8usize, 0usize), (12, 1), (16, 3)] {
        for patience in [0u64, 2, 6] {
            v.push(unit(format!("run/late{n}/{patience}"), move |rec| {
                let inst = large(n, kind);
                for s in 0..if th { 24 } else { 8 } {
                    let what = || format!("{n} customers, shape {kind}, neither local search nor ruin and recreate, restart after {patience}, stream {s}");
                    rec.guard(what, |rec| {
                        let _o = oracle::install(vec![], Policy::Stream(700 + s), &oracle::REALS, 0);
                        run_one(rec, &inst, &|c| {
                            c.ls_enabled = false;
                            c.rr_mutation = false;
                            c.repair_probability = 0.0;
                            c.initial_individuals = 1 + s % 4;
                            c.max_iterations_without_improvement = patience;
                            c.max_iterations = Some(60);
                            c.log_interval = 3;
                            c.penalty_update_interval = 5;
                        }, &what);
                    });
                    release();
                    clock::clear();
                    oracle::clear();
                    if rec.stop() {
                        return;
                    }
                }
            }));
        }
    }
    // More members than the feasibility record is long.
    v.push(unit("run/crowded", move |rec| {
        let inst = large(12, 0);
        let what = || "12 customers, up to 150 members of a kind".to_string();
        rec.guard(what, |rec| {
            let o = oracle::install(vec![], Policy::Stream(555), &oracle::REALS, 0);
            o.borrow_mut().limit = 2_000_000_000;
            run_one(rec, &inst, &|c| {
                c.ls_enabled = false;
                c.rr_mutation = false;
                c.initial_individuals = 200;
                c.min_population_size = 110;
                c.population_lambda = 40;
                c.max_iterations = Some(if th { 300 } else { 120 });
                c.log_interval = 10;
                c.max_iterations_without_improvement = 1000;
            }, &what);
        });
        release();
        clock::clear();
        oracle::clear();
    }));
    // Long, with the shipped sizes.
    for (n, k) in [(5usize, 0usize), (8, 2), (9, 4)] {
        v.push(unit(format!("run/long{n}"), move |rec| {
            let inst = family(n)[k].clone();
            let what = || format!("{} shipped sizes", inst.describe());
            rec.guard(what, |rec| {
                let o = oracle::install(vec![], Policy::Stream(444), &oracle::REALS, 0);
                o.borrow_mut().limit = 2_000_000_000;
                run_one(rec, &inst, &|c| {
                    let d = Config::default();
                    c.initial_individuals = 60;
                    c.min_population_size = d.min_population_size;
                    c.population_lambda = d.population_lambda;
                    c.num_elites = d.num_elites;
                    c.num_diversity_closest = d.num_diversity_closest;
                    c.penalty_update_interval = 50;
                    c.log_interval = 100;
                    c.max_iterations_without_improvement = 230;
                    c.max_iterations = Some(if th { 1500 } else { 600 });
                    c.rr_gamma = 1.0;
                }, &what);
            });
            release();
            clock::clear();
            oracle::clear();
        }));
    }
    v
}
