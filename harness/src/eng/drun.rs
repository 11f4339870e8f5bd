//! Whole runs of the decomposed algorithm.
use super::ga::Watch;
use super::*;
use crate::clock;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst};
use crate::oracle::{self, Policy};
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::DecomposedGeneticAlgorithm;
use hybridcvrp::solver::Metaheuristic;

pub static ENGINE: Engine = Engine { name: "drun", tags: &["C01", "C02", "C03", "C20", "C22", "C23"], units };
const END: &[&str] = &["C20"];
const BEST: &[&str] = &["C03"];

pub fn small(c: &mut Config) {
    super::ga::small(c);
    c.max_iterations = None;
    c.rr_gamma = 0.3;
    c.decompose_limit = 1;
    c.decomposed_problem_min_size = 2;
}

fn run_one(rec: &mut Rec, inst: &Inst, f: &dyn Fn(&mut Config), pol: Policy, steps: usize, mid: bool, what: &dyn Fn() -> String) {
    rec.traces += 1;
    crate::hash::salt(3);
    clock::start(5_000_000_000, 0, vec![]);
    let ctx = inst.ctx_with(|c| {
        small(c);
        f(c);
    });
    let limit = 1000 + steps as u64;
    ctx.config.borrow_mut().time_limit = limit;
    let start = clock::now().unwrap();
    let _o = oracle::install(vec![], pol, &oracle::REALS, 0);
    // Millions of draws are regular here.
    _o.borrow_mut().limit = 2_000_000_000;
    let mut m = DecomposedGeneticAlgorithm::new(&ctx);
    let mut w = Watch::new(inst, &ctx);
    rec.check(!m.terminated(), END, || format!("ended before it began: {}", what()));
    let k = ctx.config.borrow().num_vehicles;
    for s in 0..steps {
        let before = clock::now().unwrap();
        if mid && s + 1 == steps {
            // The time runs out while the sub-problem is being solved: of the limit, most has passed
            // before it, and the rest is over after 25 looks at the clock.
            clock::advance((limit - 100) * 1_000_000_000 - (before - start));
            clock::set_step(4_000_000_000);
        }
        let looks = clock::reads();
        m.iterate(&ctx);
        if mid && s + 1 == steps {
            let looks = clock::reads() - looks;
            rec.check(looks <= 65, END, || format!("a sub-problem looks {looks} times at the clock, the run was over after 25: {}", what()));
        }
        clock::set_step(0);
        rec.states += 1;
        rec.tick();
        rec.check(!m.terminated() || (mid && s + 1 == steps), END, || format!("ended {} s into a run of {limit} s: {}", (before - start) / 1_000_000_000, what()));
        w.history(rec, &ctx, what);
        rec.check(ctx.config.borrow().num_vehicles == k, &["C22"], || format!("the number of vehicles changed from {k} to {}: {}", ctx.config.borrow().num_vehicles, what()));
        if rec.stop() {
            return;
        }
        if !mid {
            clock::advance(900_000_000);
        }
    }
    // A feasible solution exists and the search visits all of these tiny spaces many times over.
    rec.check(w.entries > 0, BEST, || format!("nothing was recorded in {steps} iterations: {}", what()));
    // Just before the limit it goes on.
    let now = clock::now().unwrap();
    if now - start < limit * 1_000_000_000 {
        clock::advance(start + limit * 1_000_000_000 - now);
    }
    m.iterate(&ctx);
    rec.check(m.terminated(), END, || format!("goes on after its time limit: {}", what()));
    let shot = |ctx: &Context| {
        let h = ctx.search_history.borrow();
        format!("{:?} {} {:?}", h.last_entry().map(|e| (e.solution.routes.clone(), e.solution.cost)), h.entries().len(), ctx.config.borrow())
    };
    w.history(rec, &ctx, what);
    let a = shot(&ctx);
    for _ in 0..2 {
        m.iterate(&ctx);
        rec.check(m.terminated(), END, || format!("resumed after its end: {}", what()));
    }
    let b = shot(&ctx);
    rec.check(a == b, END, || format!("an ended run changed from {a} to {b}: {}", what()));
}

/// Nothing is done when the time is already over at the first look.
fn late(rec: &mut Rec, inst: &Inst, limit: u64, jump: u64) {
    rec.states += 1;
    let what = || format!("{} time limit {limit} s, {jump} ns pass before the start", inst.describe());
    rec.guard(what, |rec| {
        clock::start(5_000_000_000, 0, vec![]);
        let ctx = inst.ctx_with(small);
        ctx.config.borrow_mut().time_limit = limit;
        let _o = oracle::install(vec![], Policy::Stream(1), &oracle::REALS, 0);
        let mut m = DecomposedGeneticAlgorithm::new(&ctx);
        clock::advance(jump);
        m.iterate(&ctx);
        let over = jump >= limit * 1_000_000_000;
        rec.check(m.terminated() == over, END, || format!("ended: {} {}", m.terminated(), what()));
        rec.check(!over || ctx.search_history.borrow().entries().is_empty(), END, || format!("solutions were recorded after the end: {}", what()));
    });
    clock::clear();
    oracle::clear();
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    let vars: Vec<(&'static str, fn(&mut Config))> = vec![
        ("plain", |_| ()),
        ("one", |c| {
            c.decomposed_problem_min_size = 1;
            c.elite_education = true;
            c.elite_education_problem_size_limit = 0;
            c.elite_education_gamma = 5.0;
        }),
        ("all", |c| {
            c.decomposed_problem_min_size = 100;
            c.ls_enabled = false;
            c.rr_mutation = false;
        }),
        ("rounded_rr", |c| {
            c.rr_gamma = 1.5;
            c.swap_star = false;
            c.linear_split = false;
            c.max_iterations_without_improvement = 3;
        }),
    ];
    for n in 1..=5usize {
        for (fi, inst) in family(n).into_iter().enumerate() {
            for (vi, (vn, f)) in vars.iter().enumerate() {
                for s in 0..(if th { 6 } else { 1 }) {
                    if !th && (n + fi + vi) % 2 != 0 {
                        continue;
                    }
                    let (f, vn, inst) = (*f, *vn, inst.clone());
                    let pol = match s {
                        1 => Policy::Last,
                        2 => Policy::First,
                        s => Policy::Stream(s as u64 + 10),
                    };
                    v.push(unit(format!("run/{}{n}/{vn}/{s}", inst.name), move |rec| {
                        let what = || format!("{} variant {vn} policy {pol:?}", inst.describe());
                        rec.guard(what, |rec| run_one(rec, &inst, &f, pol, if th { 5 } else { 3 }, (s + n + fi) % 2 == 0, &what));
                        clock::clear();
                        oracle::clear();
                    }));
                }
            }
        }
    }
    // Larger: many routes, several sub-problems.
    for (n, kind) in [(14usize, 0usize), (22, 1), (30, 2), (45, 3), (80, 0)] {
        if !th && n > 22 {
            continue;
        }
        v.push(unit(format!("large/{n}"), move |rec| {
            let inst = large(n, kind);
            let what = || format!("{n} customers, shape {kind}");
            rec.guard(what, |rec| run_one(rec, &inst, &|c| c.decomposed_problem_min_size = n as u64 / 3, Policy::Stream(n as u64), if th { 5 } else { 3 }, true, &what));
            clock::clear();
            oracle::clear();
        }));
    }
    v.push(unit("late", move |rec| {
        for inst in family(3).iter().take(2) {
            for limit in [0u64, 1, 7] {
                for jump in [0i64, -1, 1, 1_000_000_000] {
                    let j = (limit * 1_000_000_000) as i64 + jump;
                    if j >= 0 {
                        late(rec, inst, limit, j as u64);
                    }
                }
            }
        }
    }));
    v
}
