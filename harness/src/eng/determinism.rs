//! Deterministic mode: the same run in every environment.
use super::procs;
use super::parse::scratch;
use super::*;
use crate::clock;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst};
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, Decomposition, GeneticAlgorithm};
use hybridcvrp::solver::{Context, Metaheuristic};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub static ENGINE: Engine = Engine { name: "determinism", tags: &["C21"], units };
const P: &[&str] = &["C21"];

type Set = fn(&mut Config);

fn vars() -> Vec<(&'static str, Set)> {
    vec![
        ("default", |_| ()),
        ("elite", |c| {
            c.elite_education = true;
            c.elite_education_problem_size_limit = 0;
            c.elite_education_gamma = 20.0;
        }),
        ("norr_repair", |c| {
            c.rr_mutation = false;
            c.repair_probability = 1.0;
            c.feasibility_proportion_target = 0.9;
        }),
        ("nols", |c| {
            c.ls_enabled = false;
            c.linear_split = false;
        }),
        ("restart", |c| {
            c.max_iterations_without_improvement = 3;
            c.num_elites = 1;
        }),
        ("halfrr", |c| {
            c.rr_probability = 0.5;
            c.rr_diversify = false;
            c.tournament_size = 4;
            c.swap_star = false;
        }),
    ]
}

fn insts() -> Vec<Inst> {
    let mut v: Vec<Inst> = vec![];
    for n in [1, 3, 6, 9] {
        v.extend(family(n));
    }
    for (n, k) in [(16, 0), (24, 1), (30, 2), (48, 3), (70, 1), (110, 3)] {
        v.push(large(n, k));
    }
    v
}

/// What surrounds a run and must not matter.
#[derive(Clone, Copy, Debug)]
struct Env {
    salt: u64,
    /// Start and speed of the clock.
    clock: (u64, u64),
    /// Work done in the process before.
    earlier: usize,
}

fn hash(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn bits(ctx: &Context) -> (usize, u64, Vec<Vec<usize>>) {
    let h = ctx.search_history.borrow();
    (h.entries().len(), h.best_cost.to_bits(), h.last_entry().map(|e| e.solution.routes.clone()).unwrap_or_default())
}

/// The course of a run: one number per iteration, then the recorded costs.
fn course(inst: &Inst, f: &dyn Fn(&mut Config), seed: u64, gens: u64, decomposed: bool, env: Option<Env>) -> (Vec<u64>, String) {
    if let Some(e) = env {
        crate::hash::salt(e.salt);
        clock::start(e.clock.0, e.clock.1, vec![]);
        for k in 0..e.earlier {
            // An earlier run, of another instance with another seed.
            let other = &family(4)[k % 7];
            let ctx = other.ctx_with(|c| {
                super::ga::small(c);
                c.seed = 77 + k as u64;
                c.deterministic = k % 2 == 0;
                c.max_iterations = Some(2);
            });
            let mut ga = GeneticAlgorithm::new(&ctx);
            while !ga.terminated() {
                ga.iterate(&ctx);
            }
        }
    }
    let ctx = inst.ctx_with(|c| {
        super::ga::small(c);
        c.deterministic = true;
        c.seed = seed;
        c.initial_individuals = 6;
        c.min_population_size = 4;
        c.population_lambda = 4;
        c.num_elites = 2;
        c.penalty_update_interval = 3;
        c.max_iterations = Some(gens);
        c.time_limit = 1 << 40;
        c.decomposed_problem_min_size = (inst.n() / 2) as u64;
        f(c);
        if decomposed {
            c.max_iterations = None;
        }
    });
    let mut v = vec![];
    if decomposed {
        let mut m = DecomposedGeneticAlgorithm::new(&ctx);
        for _ in 0..gens {
            m.iterate(&ctx);
            v.push(hash(bits(&ctx)));
        }
    } else {
        let mut ga = GeneticAlgorithm::new(&ctx);
        let mut guard = 0;
        while !ga.terminated() && guard < 4_000_000 {
            ga.iterate(&ctx);
            guard += 1;
            if guard < 4000 || guard % 1000 == 0 {
                v.push(hash((&ga.child.genotype, &ga.child.phenotype, ga.child.penalized_cost().to_bits(), bits(&ctx), *ctx.iteration.borrow())));
            }
        }
    }
    clock::clear();
    let h = ctx.search_history.borrow();
    let costs: Vec<f64> = h.entries().iter().map(|e| e.solution.cost).collect();
    (v, format!("{costs:?} {:?}", h.last_entry().map(|e| e.solution.routes.clone())))
}

fn compare(rec: &mut Rec, a: &(Vec<u64>, String), b: &(Vec<u64>, String), what: &dyn Fn() -> String) {
    rec.traces += 1;
    rec.transitions += b.0.len() as u64;
    let at = (0..a.0.len().max(b.0.len())).find(|&k| a.0.get(k) != b.0.get(k));
    rec.check(at.is_none() && a.1 == b.1, P, || format!("runs part at iteration {at:?}: one records {} the other {}: {}", a.1.chars().take(300).collect::<String>(), b.1.chars().take(300).collect::<String>(), what()));
}

fn envs(th: bool) -> Vec<Env> {
    let mut v = vec![];
    let salts: &[u64] = if th { &[1, 2, 3, 4, 5] } else { &[1, 2, 3] };
    for (j, clk) in [(1_000_000_000u64, 0u64), (77_123_456_789, 1_000_003), (5_000_000_000_000, 1_000_000_000)].into_iter().enumerate() {
        for (i, &salt) in salts.iter().enumerate() {
            for earlier in 0..2 {
                if th || (i + j + earlier) % 2 == 0 {
                    v.push(Env { salt, clock: clk, earlier });
                }
            }
        }
    }
    v
}

/// Writes every log line into nothing.
struct Swallow;
impl log::Log for Swallow {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(format!("{}", r.args()));
    }
    fn flush(&self) {}
}

/// Child process: one course, printed.
pub fn probe(spec: &str) -> i32 {
    if let Some(l) = std::env::var("MC_DETLOG").ok().and_then(|l| l.parse::<log::LevelFilter>().ok()) {
        static SWALLOW: Swallow = Swallow;
        log::set_logger(&SWALLOW).expect("HARNESS logger");
        log::set_max_level(l);
    }
    let p: Vec<u64> = spec.split(',').filter_map(|x| x.parse().ok()).collect();
    let inst = &insts()[p[0] as usize];
    let f = vars()[p[1] as usize].1;
    let c = course(inst, &f, p[2], p[3], p[4] == 1, None);
    for x in &c.0 {
        println!("{x}");
    }
    println!("{}", c.1);
    0
}

fn processes(rec: &mut Rec, i: usize, vi: usize, seed: u64, gens: u64, decomposed: bool) {
    rec.states += 1;
    rec.tick();
    let dir = scratch(&format!("det{}", rec.slot));
    let spec = format!("{i},{vi},{seed},{gens},{}", decomposed as u8);
    let exe = procs::sibling("mc");
    let mut first: Option<String> = None;
    // Fresh processes, with different leftovers in fresh memory, logging nothing or everything.
    for (perturb, log) in [("0", "off"), ("90", "trace"), ("255", "debug")] {
        let r = procs::run(&exe, &[], &[("MC_DETPROBE", &spec), ("MALLOC_PERTURB_", perturb), ("MC_DETLOG", log)], &dir, 120.0, &mut || ());
        rec.tick();
        rec.traces += 1;
        let what = || format!("{} settings {} seed {seed} {gens} iterations decomposed {decomposed}, separate processes (memory {perturb}, log {log}) {}", insts()[i].name, vars()[vi].0, r.err.chars().take(200).collect::<String>());
        if !rec.check(r.code == Some(0), P, || format!("exit {:?}: {}", r.code, what())) {
            return;
        }
        rec.transitions += r.out.lines().count() as u64;
        match &first {
            None => first = Some(r.out),
            Some(f) => {
                let at = f.lines().zip(r.out.lines()).position(|(a, b)| a != b);
                rec.check(*f == r.out, P, || format!("runs part at iteration {at:?}: one ends with {:?} the other with {:?}: {}", f.lines().last(), r.out.lines().last(), what()));
            }
        }
    }
}

/// The course of solving one sub-problem for a number of generations, and its solution.
fn sub_course(inst: &Inst, s: &Sol, size: usize, slack: usize, f: &dyn Fn(&mut Config), seed: u64, gens: u64, e: Env) -> (Vec<u64>, String) {
    crate::hash::salt(e.salt);
    clock::start(e.clock.0, e.clock.1, vec![]);
    let ctx = inst.ctx_k(nonempty(s).len() + slack, 2.5, |c| {
        super::ga::small(c);
        c.deterministic = true;
        c.seed = seed;
        c.max_iterations = None;
        c.time_limit = 1 << 40;
        c.decomposed_problem_min_size = size as u64;
        f(c);
    });
    for _ in 0..e.earlier {
        // Another solution cut and solved before does not draw on this run's numbers.
        let other = inst.ctx_with(|c| {
            super::ga::small(c);
            c.seed = 5;
        });
        let _ = hybridcvrp::solver::genetic::Individual::new_random(&other, 1);
    }
    let k = ctx.config.borrow().num_vehicles as usize;
    let mut g = ind(&ctx, &pad(nonempty(s), k));
    g.sort_routes(&ctx);
    g.evaluate(&ctx);
    let mut v = vec![];
    let mut d = Decomposition::new(&mut g, &ctx);
    v.push(hash((&d.mapping, &d.solution.phenotype)));
    if d.ctx.vehicle_lower_bound() <= d.ctx.config.borrow().num_vehicles {
        d.ctx.config.borrow_mut().max_iterations = Some(gens);
        let mut ga = GeneticAlgorithm::new(&d.ctx);
        ga.add_initial(&d.ctx, d.solution.clone());
        while !ga.terminated() {
            ga.iterate(&d.ctx);
            v.push(hash((&ga.child.genotype, &ga.child.phenotype, ga.child.penalized_cost().to_bits(), bits(&d.ctx), *d.ctx.iteration.borrow())));
        }
        if let Some(b) = ga.best_solution {
            d.solution = b;
        }
    }
    d.finish(&ctx);
    v.push(hash((&g.genotype, &g.phenotype, g.penalized_cost().to_bits(), ctx.random.range_usize(0, 1 << 30))));
    clock::clear();
    (v, format!("{:?} {}", g.phenotype, g.penalized_cost()))
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    let all = insts();
    // One sub-problem of every small solution.
    for n in 2..=6usize {
        for (fi, inst) in family(n).into_iter().enumerate() {
            for (vi, (vn, f)) in vars().into_iter().enumerate() {
                if !th && (n + fi + vi) % 2 != 0 {
                    continue;
                }
                let inst = inst.clone();
                v.push(unit(format!("sub/{}{n}/{vn}", inst.name), move |rec| {
                    let all = crate::refm::canonical_solutions(n, n);
                    let step = (all.len() / if th { 160 } else { 60 }).max(1);
                    for (si, s) in all.iter().enumerate().step_by(step) {
                        let size = 1 + (si / step) % n;
                        let slack = 2 + si % 2;
                        let seed = 3 + (si % 4) as u64;
                        let mut base: Option<(Vec<u64>, String)> = None;
                        for salt in 1..=(if th { 6 } else { 4 }) {
                            let e = Env { salt, clock: (1_000_000_000 * salt, 1000 * salt * salt), earlier: (salt % 2) as usize };
                            rec.states += 1;
                            let what = || format!("{} settings {vn} solution {s:?} minimum size {size} slack {slack} seed {seed}, a sub-problem in {e:?}", inst.describe());
                            let c = rec.guard(what, |_| sub_course(&inst, s, size, slack, &f, seed, if th { 40 } else { 20 }, e));
                            let Some(c) = c else { return };
                            match &base {
                                None => base = Some(c),
                                Some(b) => compare(rec, b, &c, &what),
                            }
                            if rec.stop() {
                                return;
                            }
                        }
                    }
                }));
            }
        }
    }
    for (i, inst) in all.iter().enumerate() {
        let big = inst.n() > 9;
        for (vi, (vn, f)) in vars().into_iter().enumerate() {
            if !th && !big && (i + vi) % 2 != 0 {
                continue;
            }
            let inst = inst.clone();
            let gens = if big { if th { 60 } else { 12 } } else if th { 120 } else { 40 };
            v.push(unit(format!("env/{}{}/{vn}", inst.name, inst.n()), move |rec| {
                let seeds: &[u64] = if th { &[0, 1, 2, 12345, 1 << 40] } else { &[0, 7] };
                for &seed in seeds {
                    let mut base: Option<(Vec<u64>, String)> = None;
                    for (ei, e) in envs(th).into_iter().enumerate() {
                        if inst.n() > 60 && ei > 3 {
                            break;
                        }
                        rec.states += 1;
                        let what = || format!("{} settings {vn} seed {seed} {gens} generations, {e:?} against {:?}", inst.describe(), envs(th)[0]);
                        let c = rec.guard(what, |_| course(&inst, &f, seed, gens, false, Some(e)));
                        let Some(c) = c else { return };
                        match &base {
                            None => base = Some(c),
                            Some(b) => compare(rec, b, &c, &what),
                        }
                        if rec.stop() {
                            return;
                        }
                    }
                }
            }));
            // The process itself.
            if th || (i + 2 * vi) % 7 == 0 {
                v.push(unit(format!("process/{i}/{vn}"), move |rec| {
                    for seed in [1u64, 99] {
                        processes(rec, i, vi, seed, gens, false);
                    }
                }));
            }
        }
        // Decomposition, for a number of iterations.
        if inst.n() > 1 && inst.n() < if th { 60 } else { 30 } && (th || i % 2 == 0) {
            let inst = inst.clone();
            let gens = if th { 4 } else { 2 };
            v.push(unit(format!("decomposed/{}{}", inst.name, inst.n()), move |rec| {
                let mut base: Option<(Vec<u64>, String)> = None;
                for (ei, e) in envs(th).into_iter().enumerate() {
                    if ei > (if th { 8 } else { 3 }) {
                        break;
                    }
                    rec.states += 1;
                    let what = || format!("{} decomposed, {gens} iterations, {e:?} against {:?}", inst.describe(), envs(th)[0]);
                    let c = rec.guard(what, |_| course(&inst, &|c| c.rr_gamma = 0.2, 5, gens, true, Some(e)));
                    let Some(c) = c else { return };
                    match &base {
                        None => base = Some(c),
                        Some(b) => compare(rec, b, &c, &what),
                    }
                    if rec.stop() {
                        return;
                    }
                }
                processes(rec, i, 2, 3, gens, true);
            }));
        }
    }
    // The program, twice.
    for (n, kind) in [(20usize, 1usize), (40, 3)] {
        v.push(unit(format!("program/{n}"), move |rec| {
            let dir = scratch(&format!("detbin{n}"));
            let inst = large(n, kind);
            std::fs::write(dir.join("i.vrp"), procs::text(&inst)).expect("HARNESS");
            for (extra, seed) in [("", 4u64), ("elite_education: true\nelite_education_problem_size_limit: 1\nelite_education_gamma: 20\n", 9)] {
                let yaml = format!("deterministic: true\nseed: {seed}\ninitial_individuals: 8\nmin_population_size: 5\npopulation_lambda: 5\nmax_iterations: 25\ntime_limit: 100000\n{extra}");
                std::fs::write(dir.join("config.yml"), &yaml).expect("HARNESS");
                let mut first: Option<String> = None;
                for (perturb, log) in [("0", "off"), ("17", "trace"), ("255", "info"), ("0", "debug")] {
                    rec.states += 1;
                    rec.traces += 1;
                    let r = procs::run(&procs::sibling("hybridcvrp_bin"), &["i.vrp"], &[("MALLOC_PERTURB_", perturb), ("RUST_LOG", log)], &dir, 120.0, &mut || ());
                    rec.tick();
                    let sol = std::fs::read_to_string(dir.join("output.sol")).unwrap_or_default();
                    let what = || format!("program, {n} customers, log {log}, {yaml:?}");
                    if !rec.check(r.code == Some(0) && sol.len() > 5, P, || format!("exit {:?}, solution {sol:?}: {} {}", r.code, r.err.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>(), what())) {
                        break;
                    }
                    match &first {
                        None => first = Some(sol),
                        Some(f) => {
                            rec.check(*f == sol, P, || format!("delivers {sol:?} and {f:?}: {}", what()));
                        }
                    }
                }
            }
            let _ = std::fs::remove_dir_all(&dir);
        }));
    }
    v
}
