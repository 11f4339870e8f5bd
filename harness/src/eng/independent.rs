//! Several solvers in one process, and solvers that move in memory between their steps.
use super::parse::scratch;
use super::procs;
use super::*;
use crate::clock;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst};
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, GeneticAlgorithm};
use hybridcvrp::solver::{Context, Metaheuristic, Solver};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub static ENGINE: Engine = Engine { name: "independent", tags: &["C32", "C23"], units };
const P: &[&str] = &["C32"];

/// A run to be: what is solved, how, and in how large steps.
#[derive(Clone, Debug)]
struct Spec {
    inst: Inst,
    set: usize,
    seed: u64,
    decomposed: bool,
    /// Iterations per step.
    batch: usize,
}

fn set(k: usize) -> (&'static str, fn(&mut Config)) {
    [
        ("default", (|_| ()) as fn(&mut Config)),
        ("elite", |c| {
            c.elite_education = true;
            c.elite_education_problem_size_limit = 0;
            c.elite_education_gamma = 2500.0;
        }),
        ("repair", |c| {
            c.rr_mutation = false;
            c.repair_probability = 1.0;
            c.feasibility_proportion_target = 0.9;
            c.linear_split = false;
        }),
        ("restart", |c| {
            c.max_iterations_without_improvement = 2;
            c.num_elites = 1;
            c.swap_star = false;
            c.local_search_granularity = 2;
        }),
    ][k]
}

impl Spec {
    fn new(inst: &Inst, set: usize, seed: u64, decomposed: bool, batch: usize) -> Spec {
        Spec { inst: inst.clone(), set, seed, decomposed, batch }
    }
    fn describe(&self) -> String {
        format!("{} settings {} seed {}{} in steps of {} iterations", self.inst.describe(), set(self.set).0, self.seed, if self.decomposed { " decomposed" } else { "" }, self.batch)
    }
    fn ctx(&self) -> Context {
        *self.inst.ctx_with(|c| {
            super::ga::small(c);
            c.deterministic = true;
            c.seed = self.seed;
            c.initial_individuals = 3;
            c.min_population_size = 3;
            c.population_lambda = 2;
            c.penalty_update_interval = 2;
            c.max_iterations = if self.decomposed { None } else { Some(100_000) };
            c.time_limit = 1 << 40;
            c.rr_gamma = 2.0;
            c.decomposed_problem_min_size = (self.inst.n() / 2).max(1) as u64;
            set(self.set).1(c);
        })
    }
}

enum Algo {
    Plain(GeneticAlgorithm),
    Decomposed(DecomposedGeneticAlgorithm),
}

impl Algo {
    fn new(s: &Spec, ctx: &Context) -> Algo {
        if s.decomposed {
            Algo::Decomposed(DecomposedGeneticAlgorithm::new(ctx))
        } else {
            Algo::Plain(GeneticAlgorithm::new(ctx))
        }
    }
    fn iterate(&mut self, ctx: &Context) {
        match self {
            Algo::Plain(g) => g.iterate(ctx),
            Algo::Decomposed(g) => g.iterate(ctx),
        }
    }
}

/// A run in progress.
struct Run {
    spec: Spec,
    ctx: Option<Box<Context>>,
    algo: Option<Box<Algo>>,
    steps: usize,
    at: usize,
    trace: Vec<u64>,
    end: String,
    /// What lies where the run has been before.
    left: Vec<(Option<Box<Context>>, Option<Box<Algo>>)>,
}

impl Run {
    fn new(spec: &Spec, iterations: usize) -> Run {
        Run { spec: spec.clone(), ctx: None, algo: None, steps: iterations + 3, at: 0, trace: vec![], end: String::new(), left: vec![] }
    }
    /// Build the context, build the algorithm, steps, take the result and drop everything.
    fn step(&mut self) {
        let last = self.steps - 1;
        match self.at {
            0 => self.ctx = Some(Box::new(self.spec.ctx())),
            1 => self.algo = Some(Box::new(Algo::new(&self.spec, self.ctx.as_ref().unwrap()))),
            k if k == last => {
                let ctx = self.ctx.take().unwrap();
                {
                    let h = ctx.search_history.borrow();
                    let costs: Vec<f64> = h.entries().iter().map(|e| e.solution.cost).collect();
                    let msgs: Vec<&String> = h.messages.iter().map(|m| &m.message).collect();
                    self.end = format!("{costs:?} {:?} {msgs:?} next draw {}", h.last_entry().map(|e| &e.solution.routes), ctx.random.range_usize(0, 1 << 30));
                }
                self.algo = None;
                self.left.clear();
            }
            _ => {
                let ctx = self.ctx.as_ref().unwrap();
                let m = self.algo.as_mut().unwrap();
                for _ in 0..self.spec.batch {
                    m.iterate(ctx);
                }
                let mut h = DefaultHasher::new();
                let hist = ctx.search_history.borrow();
                (hist.entries().len(), hist.best_cost.to_bits(), hist.last_entry().map(|e| e.solution.routes.clone()), *ctx.iteration.borrow(), ctx.config.borrow().penalty_capacity.to_bits()).hash(&mut h);
                if let Algo::Plain(g) = &**m {
                    (&g.child.genotype, &g.child.phenotype, g.child.penalized_cost().to_bits(), g.iterations, g.population.size()).hash(&mut h);
                }
                self.trace.push(h.finish());
            }
        }
        self.at += 1;
    }
    fn result(&self) -> (Vec<u64>, String) {
        (self.trace.clone(), self.end.clone())
    }
    /// Moves the context and/or the algorithm elsewhere and leaves others, of the same size, in their place.
    fn relocate(&mut self, context: bool, algo: bool) {
        let mut other = self.spec.clone();
        for (i, p) in other.inst.xy.iter_mut().enumerate() {
            *p = (p.1 * 1.7 + i as f64, p.0 * 0.3 - (i * i) as f64);
        }
        if let Some(l) = other.inst.lower.as_mut() {
            for (i, r) in l.iter_mut().enumerate() {
                for (j, d) in r.iter_mut().enumerate() {
                    *d = *d * 0.5 + (i * j) as f64;
                }
            }
        }
        other.seed += 1000;
        let decoy = other.ctx();
        {
            let mut c = decoy.config.borrow_mut();
            c.penalty_capacity *= 3.7;
            c.penalty_inc_multiplier = 1.9;
            c.penalty_dec_multiplier = 0.3;
            c.local_search_granularity = 1;
        }
        let decoy_algo = Algo::new(&other, &decoy);
        let mut left = (None, None);
        if context {
            if let Some(mut here) = self.ctx.take() {
                let mut there = Box::new(decoy);
                std::mem::swap(&mut *here, &mut *there);
                self.ctx = Some(there);
                left.0 = Some(here);
            }
        }
        if algo {
            if let Some(mut here) = self.algo.take() {
                let mut there = Box::new(decoy_algo);
                std::mem::swap(&mut *here, &mut *there);
                self.algo = Some(there);
                left.1 = Some(here);
            }
        }
        self.left.push(left);
    }
}

fn alone(s: &Spec, iterations: usize) -> (Vec<u64>, String) {
    let mut r = Run::new(s, iterations);
    for _ in 0..r.steps {
        r.step();
    }
    r.result()
}

fn judge(rec: &mut Rec, want: &(Vec<u64>, String), got: &(Vec<u64>, String), what: &dyn Fn() -> String) {
    let at = (0..want.0.len().max(got.0.len())).find(|&k| want.0.get(k) != got.0.get(k));
    rec.check(want == got, P, || format!("parts from its course at step {at:?}: alone it ends with {} instead of {}: {}", want.1.chars().take(250).collect::<String>(), got.1.chars().take(250).collect::<String>(), what()));
}

/// Every order in which runs of the given lengths can take their steps.
fn orders(left: &mut Vec<usize>, pre: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    if left.iter().all(|l| *l == 0) {
        return f(pre);
    }
    for i in 0..left.len() {
        if left[i] > 0 {
            left[i] -= 1;
            pre.push(i);
            let go = orders(left, pre, f);
            pre.pop();
            left[i] += 1;
            if !go {
                return false;
            }
        }
    }
    true
}

fn env() {
    crate::hash::salt(9);
    clock::start(5_000_000_000, 0, vec![]);
}

/// Every order (or every so manieth) of the steps of the runs.
fn interleave(rec: &mut Rec, specs: &[Spec], iterations: usize, every: usize) {
    env();
    let what = || specs.iter().map(|s| s.describe()).collect::<Vec<_>>().join(" WITH ");
    let Some(want) = rec.guard(what, |_| specs.iter().map(|s| alone(s, iterations)).collect::<Vec<_>>()) else { return };
    let mut left = vec![iterations + 3; specs.len()];
    let mut count = 0usize;
    orders(&mut left, &mut vec![], &mut |o| {
        count += 1;
        if (count - 1) % every != 0 {
            return true;
        }
        rec.traces += 1;
        let what = || format!("{} in the order {o:?}", specs.iter().map(|s| s.describe()).collect::<Vec<_>>().join(" WITH "));
        rec.guard(what, |rec| {
            env();
            let mut runs: Vec<Run> = specs.iter().map(|s| Run::new(s, iterations)).collect();
            for i in o {
                runs[*i].step();
                rec.states += 1;
            }
            rec.transitions += o.len() as u64;
            for (r, w) in runs.iter().zip(&want) {
                judge(rec, w, &r.result(), &what);
            }
        });
        !rec.stop()
    });
    clock::clear();
    rec.sample(|| what());
}

/// The same with every run on a thread of its own, in turns.
fn threads(rec: &mut Rec, specs: &[Spec], iterations: usize, every: usize) {
    use std::sync::mpsc::channel;
    env();
    let what = || specs.iter().map(|s| s.describe()).collect::<Vec<_>>().join(" WITH ");
    let Some(want) = rec.guard(what, |_| specs.iter().map(|s| alone(s, iterations)).collect::<Vec<_>>()) else { return };
    let mut left = vec![iterations + 3; specs.len()];
    let mut count = 0usize;
    orders(&mut left, &mut vec![], &mut |o| {
        count += 1;
        if (count - 1) % every != 0 {
            return true;
        }
        rec.traces += 1;
        rec.tick();
        let mut go = vec![];
        let mut back = vec![];
        let mut handles = vec![];
        for s in specs {
            let (gs, gr) = channel::<()>();
            let (bs, br) = channel::<Result<Option<(Vec<u64>, String)>, String>>();
            let s = s.clone();
            handles.push(std::thread::spawn(move || {
                env();
                let mut r = Run::new(&s, iterations);
                while gr.recv().is_ok() {
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.step()));
                    let done = r.at == r.steps;
                    let msg = match res {
                        Ok(()) => Ok(done.then(|| r.result())),
                        Err(p) => Err(crate::core::panic_text(&p)),
                    };
                    if bs.send(msg).is_err() {
                        return;
                    }
                }
            }));
            go.push(gs);
            back.push(br);
        }
        let what = || format!("{} on threads in the order {o:?}", specs.iter().map(|s| s.describe()).collect::<Vec<_>>().join(" WITH "));
        for &i in o {
            let _ = go[i].send(());
            rec.states += 1;
            match back[i].recv() {
                Ok(Ok(Some(got))) => judge(rec, &want[i], &got, &what),
                Ok(Ok(None)) => (),
                Ok(Err(e)) => {
                    rec.fail(P, || format!("panicked: {e}: {}", what()));
                    break;
                }
                Err(_) => break,
            }
        }
        rec.transitions += o.len() as u64;
        drop(go);
        for h in handles {
            let _ = h.join();
        }
        !rec.stop()
    });
    clock::clear();
}

/// Free-running: all at once, each as fast as it goes.
fn parallel(rec: &mut Rec, specs: &[Spec], iterations: usize, times: usize) {
    env();
    let what = || specs.iter().map(|s| s.describe()).collect::<Vec<_>>().join(" WITH ");
    let Some(want) = rec.guard(what, |_| specs.iter().map(|s| alone(s, iterations)).collect::<Vec<_>>()) else { return };
    for _ in 0..times {
        rec.tick();
        rec.traces += 1;
        let hs: Vec<_> = specs
            .iter()
            .map(|s| {
                let s = s.clone();
                std::thread::spawn(move || {
                    env();
                    std::panic::catch_unwind(|| alone(&s, iterations)).map_err(|p| crate::core::panic_text(&p))
                })
            })
            .collect();
        for (h, w) in hs.into_iter().zip(&want) {
            match h.join() {
                Ok(Ok(got)) => judge(rec, w, &got, &|| format!("{} on threads at once", what())),
                Ok(Err(e)) => rec.fail(P, || format!("panicked: {e}: {} on threads at once", what())),
                Err(_) => rec.fail(P, || format!("panicked: {} on threads at once", what())),
            }
            rec.states += 1;
        }
        if rec.stop() {
            break;
        }
    }
    clock::clear();
}

/// Every set of steps before which the context, the algorithm or both move.
fn moves(rec: &mut Rec, s: &Spec, iterations: usize) {
    env();
    let what = || s.describe();
    let Some(want) = rec.guard(what, |_| alone(s, iterations)) else { return };
    // Before the second step at the earliest there is something to move.
    let points = iterations + 2;
    for kind in [(true, false), (false, true), (true, true)] {
        for mask in 1u32..(1 << points) {
            rec.traces += 1;
            let what = || format!("{} moved (context {}, algorithm {}) before the steps of {mask:#b}", s.describe(), kind.0, kind.1);
            rec.guard(what, |rec| {
                env();
                let mut r = Run::new(s, iterations);
                r.step();
                for k in 0..points {
                    if mask >> k & 1 == 1 {
                        r.relocate(kind.0, kind.1);
                        rec.transitions += 1;
                    }
                    r.step();
                    rec.states += 1;
                }
                judge(rec, &want, &r.result(), &what);
            });
            if rec.stop() {
                clock::clear();
                return;
            }
        }
    }
    clock::clear();
}

/// The program's way: both are handed over to a `Solver`, which runs to the end.
fn solver(rec: &mut Rec, s: &Spec) {
    let what = || format!("{} handed to a Solver", s.describe());
    rec.guard(what, |rec| {
        let shot = |ctx: &Context| {
            let h = ctx.search_history.borrow();
            let costs: Vec<f64> = h.entries().iter().map(|e| e.solution.cost).collect();
            format!("{costs:?} {:?} {:?} {}", h.last_entry().map(|e| &e.solution.routes), ctx.config.borrow().penalty_capacity, ctx.random.range_usize(0, 1 << 30))
        };
        for limit in [1u64, 2, 5, 9] {
            rec.states += 1;
            rec.traces += 1;
            // The time limit ends a decomposed run: every look at the clock takes a while.
            let start = || {
                crate::hash::salt(9);
                clock::start(5_000_000_000, if s.decomposed { 1_000_000 } else { 0 }, vec![]);
                let c = s.ctx();
                {
                    let mut c = c.config.borrow_mut();
                    if s.decomposed {
                        c.time_limit = limit;
                    } else {
                        c.max_iterations = Some(limit);
                    }
                }
                c
            };
            let ctx = Box::new(start());
            let mut m = Algo::new(s, &ctx);
            let ended = |m: &Algo| match m {
                Algo::Plain(g) => g.terminated(),
                Algo::Decomposed(g) => g.terminated(),
            };
            while !ended(&m) {
                m.iterate(&ctx);
            }
            let want = shot(&ctx);
            let ctx = start();
            let got = if s.decomposed {
                let m = DecomposedGeneticAlgorithm::new(&ctx);
                let mut solver = Solver::new(ctx, m);
                solver.run();
                shot(&solver.ctx)
            } else {
                let m = GeneticAlgorithm::new(&ctx);
                let mut solver = Solver::new(ctx, m);
                solver.run();
                shot(&solver.ctx)
            };
            rec.check(want == got, P, || format!("ends with {got} instead of {want} (limit {limit}): {}", what()));
        }
    });
    clock::clear();
}

/// Problems and settings that share much with the given one: the size, the extent, the total demand,
/// the capacity, the seed; and yet are others.
fn alike(s: &Spec) -> Vec<(&'static str, Spec)> {
    let n = s.inst.n();
    let mut v: Vec<(&'static str, Spec)> = vec![("itself", s.clone())];
    let mut inst = |name: &'static str, f: &dyn Fn(&mut Inst)| {
        let mut t = s.clone();
        f(&mut t.inst);
        v.push((name, t));
    };
    fn reorder(i: &mut Inst, p: &dyn Fn(usize) -> usize) {
        let old = i.clone();
        for k in 0..=i.n() {
            i.xy[k] = old.xy[p(k)];
        }
        if let Some(l) = i.lower.as_mut() {
            for a in 1..=l.len() {
                for b in 0..a {
                    let (x, y) = (p(a).max(p(b)), p(a).min(p(b)));
                    l[a - 1][b] = old.lower.as_ref().unwrap()[x - 1][y];
                }
            }
        }
    }
    // The places of the customers exchanged, the demands not.
    inst("places turned round", &|i| {
        let n = i.n();
        reorder(i, &|k| if k == 0 { 0 } else { n + 1 - k });
    });
    inst("places of the first two customers exchanged", &|i| reorder(i, &|k| if k == 1 { 2 } else if k == 2 { 1 } else { k }));
    inst("another depot", &|i| {
        let n = i.n();
        reorder(i, &|k| if k == 0 { n } else if k == n { 0 } else { k });
    });
    inst("demands turned round", &|i| i.dem[1..].reverse());
    inst("demands one on", &|i| i.dem[1..].rotate_left(1));
    inst("more capacity", &|i| i.cap += 1.0);
    inst("rounding the other way", &|i| i.rounded = !i.rounded);
    inst("distances on demand", &|i| i.size_limit = if i.size_limit == 0 { 2000 } else { 0 });
    inst("mirrored", &|i| {
        for p in i.xy.iter_mut() {
            *p = (p.1, p.0);
        }
    });
    inst("larger", &|i| {
        for p in i.xy.iter_mut() {
            *p = (p.0 * 2.0, p.1 * 2.0);
        }
        if let Some(l) = i.lower.as_mut() {
            l.iter_mut().flatten().for_each(|d| *d *= 2.0);
        }
    });
    inst("other lengths in between", &|i| {
        // The extent stays.
        if let Some(l) = i.lower.as_mut() {
            let max = l.iter().flatten().cloned().fold(0.0, f64::max);
            l.iter_mut().flatten().enumerate().for_each(|(k, d)| {
                if *d < max {
                    *d *= 0.5 + 0.1 * (k % 5) as f64;
                }
            });
        } else {
            // One customer moves to the middle between the depot and another.
            let n = i.n();
            i.xy[n] = ((i.xy[0].0 + i.xy[1].0) / 2.0, (i.xy[0].1 + i.xy[1].1) / 2.0);
        }
    });
    if n > 2 {
        inst("one customer less", &|i| {
            i.xy.pop();
            i.dem.pop();
            if let Some(l) = i.lower.as_mut() {
                l.pop();
            }
        });
    }
    for k in 0..4 {
        if k != s.set {
            v.push(("other settings", Spec { set: k, ..s.clone() }));
        }
    }
    v.push(("another seed", Spec { seed: s.seed + 1, ..s.clone() }));
    v.push(("plain or decomposed", Spec { decomposed: !s.decomposed, ..s.clone() }));
    v
}

/// What the closure prints, done in a process that forks off this one (which has one thread only).
fn forked(f: impl FnOnce() -> String) -> Option<String> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid < 0 {
            return None;
        }
        if pid == 0 {
            let mut out = std::fs::File::from_raw_fd(p[1]);
            let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(s) => s,
                Err(e) => format!("panicked: {}", crate::core::panic_text(&e)),
            };
            let _ = out.write_all(s.as_bytes());
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut s = String::new();
        let ok = std::fs::File::from_raw_fd(p[0]).read_to_string(&mut s).is_ok();
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        (ok && st == 0).then_some(s)
    }
}

fn alike_spec(n: usize, k: usize, set: usize, decomposed: bool) -> Spec {
    Spec::new(&family(n)[k], set, 6, decomposed, if decomposed { 1 } else { 3 })
}

/// A process of its own: every ordered pair of runs of problems that are alike, one after the other, and
/// beside each other, against each run alone in a process of its own.
pub fn probe(spec: &str) -> i32 {
    let p: Vec<usize> = spec.split(',').filter_map(|x| x.parse().ok()).collect();
    let s = alike_spec(p[0], p[1], p[2], p[3] == 1);
    let all = alike(&s);
    let steps = |s: &Spec| if s.decomposed { 1 } else { p[4] };
    let solo = |s: &Spec| {
        env();
        format!("{:?}", alone(s, steps(s)))
    };
    let want: Vec<Option<String>> = all.iter().map(|(_, s)| forked(|| solo(s))).collect();
    for (k, w) in want.iter().enumerate() {
        match w {
            Some(w) if !w.starts_with("panicked") => println!("SOLO {k}"),
            _ => println!("BAD {} alone: {w:?}: {}", all[k].0, all[k].1.describe()),
        }
    }
    for (i, (ni, a)) in all.iter().enumerate() {
        for (j, (nj, b)) in all.iter().enumerate() {
            // Quickly: one of the two is the given problem itself.
            if p[5] == 0 && i != 0 && j != 0 {
                continue;
            }
            // Afterwards, and while the first one is still there.
            for (how, f) in [("after", 0usize), ("beside", 1), ("once more after", 2)] {
                if f == 2 && i == j {
                    continue;
                }
                let got = forked(|| match f {
                    0 => {
                        let _ = solo(a);
                        solo(b)
                    }
                    1 => {
                        env();
                        let mut r = Run::new(a, steps(a));
                        for _ in 0..r.steps - 1 {
                            r.step();
                        }
                        let res = solo(b);
                        r.step();
                        if i != j && Some(format!("{:?}", r.result())) != want[i] {
                            return format!("{res}, but {} parts from its course", a.describe());
                        }
                        res
                    }
                    _ => {
                        let _ = solo(b);
                        let _ = solo(a);
                        solo(b)
                    }
                });
                if got == want[j] {
                    println!("SAME {i} {j}");
                } else {
                    println!("BAD ({nj}) run {how} ({ni}): {} instead of {}: {} {how} {}", got.unwrap_or_default(), want[j].clone().unwrap_or_default(), b.describe(), a.describe());
                }
            }
        }
    }
    0
}

fn alikes(rec: &mut Rec, n: usize, k: usize, set: usize, decomposed: bool, its: usize, every: bool) {
    let dir = scratch(&format!("ind{}", rec.slot));
    let spec = format!("{n},{k},{set},{},{its},{}", decomposed as u8, every as u8);
    let r = procs::run(&procs::sibling("mc"), &[], &[("MC_INDPROBE", &spec)], &dir, 600.0, &mut || rec.tick());
    rec.tick();
    let what = || format!("one after the other: {} {}", alike_spec(n, k, set, decomposed).describe(), r.err.chars().take(200).collect::<String>());
    if !rec.check(r.code == Some(0), P, || format!("exit {:?}: {}", r.code, what())) {
        return;
    }
    let runs = r.out.lines().filter(|l| l.starts_with("S")).count() as u64;
    rec.states += runs;
    rec.traces += runs;
    rec.transitions += runs * its as u64;
    rec.check(runs > 60 || r.out.contains("BAD"), P, || format!("only {runs} runs: {}", what()));
    for l in r.out.lines().filter(|l| l.starts_with("BAD")).take(2) {
        rec.fail(P, || l.chars().take(1500).collect::<String>());
    }
    rec.sample(|| format!("{runs} runs {}", what()));
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    for n in if th { 2usize..=7 } else { 3..=5 } {
        for k in 0..8 {
            for set in 0..4 {
                if !th && (n + k + set) % 4 != 0 {
                    continue;
                }
                let d = (k + set) % 3 == 2 && n > 2;
                v.push(unit(format!("alike/{n}/{k}/{set}/{d}"), move |rec| alikes(rec, n, k, set, d, if th { 2 } else { 1 }, th && n % 2 == 1)));
            }
        }
    }
    let fam = |n: usize, k: usize| family(n)[k].clone();
    let mut pairs: Vec<(&'static str, Vec<Spec>, usize)> = vec![];
    for n in [1usize, 3, 4, 6] {
        for k in 0..8 {
            let a = fam(n, k);
            let b = fam(n, (k + 3) % 8);
            let c = fam(n + 2, (k + 1) % 8);
            let (set, other) = (k % 4, (k + n) % 4);
            pairs.push(("twins", vec![Spec::new(&a, set, 4, false, 3), Spec::new(&a, set, 4, false, 3)], 3));
            pairs.push(("seeds", vec![Spec::new(&a, other, 4, false, 3), Spec::new(&a, other, 5, false, 3)], 3));
            pairs.push(("sizes", vec![Spec::new(&b, set, 4, false, 4), Spec::new(&c, other, 4, false, 2)], 3));
            if n > 1 {
                pairs.push(("mixed", vec![Spec::new(&b, other, 8, true, 1), Spec::new(&a, set, 8, false, 4)], 2));
                pairs.push(("decomposed", vec![Spec::new(&c, 0, 8, true, 1), Spec::new(&a, 2, 8, true, 1)], 1));
            }
            pairs.push(("three", vec![Spec::new(&a, set, 1, false, 5), Spec::new(&b, other, 2, false, 5), Spec::new(&c, 0, 3, n > 1, 1)], if th && n < 4 { 1 } else { 0 }));
        }
    }
    for (i, (name, specs, its)) in pairs.into_iter().enumerate() {
        if !th && i % 3 != 0 {
            continue;
        }
        let its = if th { its + 1 } else { its };
        let id = format!("{name}/{}{}/{i}", specs[0].inst.name, specs[0].inst.n());
        let s2 = specs.clone();
        v.push(unit(format!("order/{id}"), move |rec| interleave(rec, &specs, its, if th || !specs.iter().any(|s| s.decomposed) { 1 } else { 5 })));
        let s3 = s2.clone();
        v.push(unit(format!("threads/{id}"), move |rec| threads(rec, &s2, its.min(1), if s2.len() > 2 { 40 } else if th { 1 } else { 5 })));
        v.push(unit(format!("parallel/{id}"), move |rec| parallel(rec, &s3, 6, if th { 40 } else { 8 })));
    }
    for n in [1usize, 2, 3, 5] {
        for k in 0..8 {
            for set in 0..4 {
                if !th && (n + k + set) % 4 != 0 {
                    continue;
                }
                let a = fam(n, k);
                let batch = 1 + (k + set) % 3;
                let s = Spec::new(&a, set, 3 + k as u64, false, batch);
                let its = if th { 6 } else { 5 };
                let id = format!("{}{n}/{set}", a.name);
                let s2 = s.clone();
                v.push(unit(format!("moves/{id}"), move |rec| moves(rec, &s, its)));
                v.push(unit(format!("solver/{id}"), move |rec| solver(rec, &s2)));
                if n > 2 && set != 1 {
                    let s = Spec::new(&a, set, 3 + k as u64, true, 1);
                    let s2 = s.clone();
                    v.push(unit(format!("moves/{id}/decomposed"), move |rec| moves(rec, &s, if th { 2 } else { 1 })));
                    v.push(unit(format!("solver/{id}/decomposed"), move |rec| solver(rec, &s2)));
                }
            }
        }
    }
    for (n, kind) in [(40usize, 0usize), (70, 1), (120, 3)] {
        if !th && n > 70 {
            continue;
        }
        v.push(unit(format!("large/{n}"), move |rec| {
            let specs: Vec<Spec> = (0..4).map(|k| Spec::new(&large(n + k * (k % 2), (kind + k / 2) % 4), k % 4, k as u64 / 2, k == 3, if k == 3 { 1 } else { 3 })).collect();
            parallel(rec, &specs, 2, 4);
            let specs: Vec<Spec> = specs[..2].to_vec();
            interleave(rec, &specs, 1, if th { 1 } else { 9 });
        }));
    }
    v
}
