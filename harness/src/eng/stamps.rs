//! Time stamps of the history under a virtual clock that moves with every reading.
use super::ga::{small, variants};
use super::*;
use crate::clock;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst};
use crate::oracle::{self, Policy};
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, Decomposition, GeneticAlgorithm};
use hybridcvrp::solver::{Context, Metaheuristic};
use std::time::{Duration, Instant};

pub static ENGINE: Engine = Engine { name: "stamps", tags: &["C29"], units };
const P: &[&str] = &["C29"];

fn now() -> u64 {
    clock::now().expect("HARNESS clock")
}

struct Seen {
    start: u64,
    entries: usize,
    messages: usize,
    last: Duration,
    last_message: Duration,
}

impl Seen {
    /// Everything recorded since `before` was recorded between then and now.
    fn look(&mut self, rec: &mut Rec, ctx: &Context, before: u64, what: &dyn Fn() -> String) {
        let (lo, hi) = (Duration::from_nanos(before - self.start), Duration::from_nanos(now() - self.start));
        let h = ctx.search_history.borrow();
        for e in &h.entries()[self.entries.min(h.entries().len())..] {
            rec.transitions += 1;
            rec.check(e.timestamp >= lo && e.timestamp <= hi, P, || format!("a solution recorded between {lo:?} and {hi:?} after the start is stamped {:?}: {}", e.timestamp, what()));
            rec.check(e.timestamp >= self.last, P, || format!("stamp {:?} after stamp {:?}: {}", e.timestamp, self.last, what()));
            self.last = e.timestamp;
        }
        for m in &h.messages[self.messages.min(h.messages.len())..] {
            rec.check(m.timestamp >= lo && m.timestamp <= hi, P, || format!("a message left between {lo:?} and {hi:?} after the start is stamped {:?}: {}", m.timestamp, what()));
            rec.check(m.timestamp >= self.last_message, P, || format!("message stamp {:?} after {:?}: {}", m.timestamp, self.last_message, what()));
            self.last_message = m.timestamp;
        }
        self.entries = h.entries().len();
        self.messages = h.messages.len();
        drop(h);
        // The time that has passed, in all its forms.
        let a = now() - self.start;
        let e = ctx.elapsed();
        let b = now() - self.start;
        let ns = e.as_nanos() as u64;
        rec.check(a <= ns && ns <= b, P, || format!("{ns} ns are said to have passed, between {a} and {b} have: {}", what()));
        let (a, s, b) = (now(), ctx.elapsed_as_secs(), now());
        rec.check((a - self.start) / 1_000_000_000 <= s && s <= (b - self.start) / 1_000_000_000, P, || format!("{s} seconds are said to have passed, {} ns have: {}", b - self.start, what()));
        let (a, s, b) = (now(), ctx.elapsed_as_secs_f64(), now());
        let f = |x: u64| (x - self.start) as f64 / 1e9;
        rec.check(f(a) - 1e-9 <= s && s <= f(b) + 1e-9, P, || format!("{s} seconds are said to have passed, {} ns have: {}", b - self.start, what()));
    }
}

/// A context whose start lies `ago` before its making.
fn ctx_at(inst: &Inst, f: &dyn Fn(&mut Config), ago: u64) -> (Box<Context>, u64) {
    let mut c = inst.config();
    f(&mut c);
    let begin = Instant::now();
    let start = now();
    clock::advance(ago);
    (Box::new(Context::new(inst.parser(), c, begin)), start)
}

fn run(rec: &mut Rec, inst: &Inst, f: &dyn Fn(&mut Config), ago: u64, step: u64, decomposed: bool, what: &dyn Fn() -> String) {
    clock::start(7_000_000_123, step, vec![]);
    let (ctx, start) = ctx_at(inst, f, ago);
    let mut s = Seen { start, entries: 0, messages: 0, last: Duration::ZERO, last_message: Duration::ZERO };
    s.look(rec, &ctx, start, what);
    let mut go = |rec: &mut Rec, m: &mut dyn Metaheuristic, calls: usize| {
        for k in 0..calls {
            clock::advance(1_500_000_007 + k as u64);
            let before = now();
            m.iterate(&ctx);
            rec.states += 1;
            rec.tick();
            s.look(rec, &ctx, before, what);
            if m.terminated() || rec.stop() {
                break;
            }
        }
    };
    if decomposed {
        let mut m = DecomposedGeneticAlgorithm::new(&ctx);
        go(rec, &mut m, 3);
    } else {
        let mut m = GeneticAlgorithm::new(&ctx);
        go(rec, &mut m, 4000);
    }
    rec.traces += 1;
}

/// Sub-problems count from the start of the whole run.
fn sub(rec: &mut Rec, inst: &Inst, ago: u64) {
    let what = || format!("sub-problem of {} made {ago} ns after the start", inst.describe());
    rec.guard(what, |rec| {
        clock::start(9_000_000_000, 1_000_003, vec![]);
        let _o = oracle::install(vec![], Policy::Stream(ago), &oracle::REALS, 0);
        let (ctx, start) = ctx_at(inst, &|c| {
            small(c);
            c.decomposed_problem_min_size = 2;
            c.initial_individuals = 2;
        }, ago);
        let k = ctx.config.borrow().num_vehicles as usize;
        let mut g = ind(&ctx, &pad((1..=inst.n()).map(|c| vec![c]).collect(), k.max(inst.n())));
        let mut d = Decomposition::new(&mut g, &ctx);
        let mut s = Seen { start, entries: 0, messages: 0, last: Duration::ZERO, last_message: Duration::ZERO };
        s.look(rec, &d.ctx, start, &what);
        let mapping: Vec<usize> = (0..d.mapping.len()).collect();
        let subsub = d.ctx.from_mapping(&mapping);
        let mut s2 = Seen { start, entries: 0, messages: 0, last: Duration::ZERO, last_message: Duration::ZERO };
        s2.look(rec, &subsub, start, &what);
        clock::advance(ago + 3_000_000_000);
        let before = now();
        clock::set_step(1000);
        let limit = ctx.elapsed_as_secs() + 1_000_000;
        d.ctx.config.borrow_mut().time_limit = limit;
        let mut ga = GeneticAlgorithm::new(&d.ctx);
        d.ctx.config.borrow_mut().max_iterations = Some(3);
        while !ga.terminated() {
            ga.iterate(&d.ctx);
        }
        s.look(rec, &d.ctx, before, &what);
        let _ = &mut d;
        rec.states += 1;
        rec.traces += 1;
    });
    clock::clear();
    oracle::clear();
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    for n in 1..=if th { 6 } else { 4 } {
        for inst in family(n) {
            for var in variants() {
                let (inst, f, name) = (inst.clone(), var.f, var.name);
                v.push(unit(format!("plain/{}{n}/{name}", inst.name), move |rec| {
                    for (k, (ago, step)) in [(0u64, 0u64), (5, 1), (2_345_678_901, 1_000_003), (0, 900_000_000)].into_iter().enumerate() {
                        for s in 0..if th { 4 } else { 1 } {
                            let what = || format!("{} {name}, made {ago} ns after the start, {step} ns per reading, stream {s}", inst.describe());
                            rec.guard(what, |rec| {
                                let _o = oracle::install(vec![], Policy::Stream(40 + s + k as u64), &oracle::REALS, 0);
                                run(rec, &inst, &|c| {
                                    small(c);
                                    f(c);
                                }, ago, step, false, &what);
                            });
                            clock::clear();
                            oracle::clear();
                        }
                    }
                }));
            }
            if n > 1 {
                let i = inst.clone();
                v.push(unit(format!("sub/{}{n}", inst.name), move |rec| {
                    for ago in [0u64, 1, 999_999_999, 12_345_678_900] {
                        sub(rec, &i, ago);
                    }
                }));
            }
            if th || n == 3 {
                v.push(unit(format!("decomposed/{}{n}", inst.name), move |rec| {
                    let what = || format!("{} decomposed", inst.describe());
                    rec.guard(what, |rec| {
                        let o = oracle::install(vec![], Policy::Stream(3), &oracle::REALS, 0);
                        o.borrow_mut().limit = 2_000_000_000;
                        run(rec, &inst, &|c| {
                            super::drun::small(c);
                            c.time_limit = 1 << 40;
                        }, 77, 1_000_003, true, &what);
                    });
                    clock::clear();
                    oracle::clear();
                }));
            }
        }
    }
    for (n, kind) in [(20usize, 0usize), (40, 1), (60, 2)] {
        v.push(unit(format!("large/{n}"), move |rec| {
            let inst = large(n, kind);
            let what = || format!("{n} customers, shape {kind}");
            rec.guard(what, |rec| {
                let _o = oracle::install(vec![], Policy::Stream(n as u64), &oracle::REALS, 0);
                run(rec, &inst, &|c| {
                    small(c);
                    c.max_iterations = Some(15);
                }, 123_456_789, 10_007, false, &what);
            });
            clock::clear();
            oracle::clear();
        }));
    }
    v
}
