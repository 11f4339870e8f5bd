//! The solution file.
use super::parse::scratch;
use super::*;
use crate::core::{unit, Unit};
use crate::faults::{self, Plan};
use crate::inst::{family, Inst};
use crate::oracle::{self, Policy};
use crate::refm;
use hybridcvrp::utils::write_solution_file;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

pub static ENGINE: Engine = Engine { name: "serial", tags: &["C08"], units };
const P: &[&str] = &["C08"];

/// The file for these routes and this cost; half a unit counts as the next one, both roundings where the cost
/// lies so close to half way that the order of summation decides.
pub fn expected(routes: &Sol, cost: f64) -> Vec<String> {
    let mut s = String::new();
    for (i, r) in nonempty(routes).iter().enumerate() {
        s += &format!("Route #{}: {}\n", i + 1, r.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
    }
    let lo = cost.floor();
    let mut v = vec![];
    if cost - lo <= 0.5 + 1e-9 && cost - lo != 0.5 {
        v.push(format!("{s}Cost {}\n", lo as u64));
    }
    if cost - lo >= 0.5 - 1e-9 {
        v.push(format!("{s}Cost {}\n", lo as u64 + 1));
    }
    v
}

/// Reads a solution file back: routes and cost.
pub fn read(t: &str) -> Option<(Sol, u64)> {
    let mut routes = vec![];
    let mut lines = t.lines();
    let mut cost = None;
    for l in &mut lines {
        if let Some(r) = l.strip_prefix("Route #") {
            let (k, c) = r.split_once(": ")?;
            if k.parse::<usize>().ok()? != routes.len() + 1 {
                return None;
            }
            let r: Result<Vec<usize>, _> = c.split(' ').map(|x| x.parse::<usize>()).collect();
            routes.push(r.ok()?);
        } else if let Some(c) = l.strip_prefix("Cost ") {
            cost = Some(c.parse::<u64>().ok()?);
            break;
        } else {
            return None;
        }
    }
    if lines.next().is_some() {
        return None;
    }
    Some((routes, cost?))
}

fn run(rec: &mut Rec, inst: &Inst, seq: &[Sol], old: Option<&str>, path: bool) {
    rec.tick();
    let dir = scratch(&format!("ser{}", rec.slot));
    let f = dir.join("out.sol");
    let _ = std::fs::remove_file(&f);
    if let Some(o) = old {
        std::fs::write(&f, o).expect("HARNESS");
    }
    let what = || format!("{} recorded {seq:?} old content {old:?} path {path}", inst.describe());
    rec.guard(what, |rec| {
        let ctx = inst.ctx_with(|c| {
            c.solution_path = if path { Some(f.to_str().unwrap().to_string()) } else { None };
        });
        let mut last = None;
        for s in seq {
            let i = ind(&ctx, s);
            let mut h = ctx.search_history.borrow_mut();
            h.add(&ctx, &i);
            last = Some((s.clone(), i.penalized_cost()));
        }
        write_solution_file(&ctx);
        rec.transitions += 1;
        let now = std::fs::read_to_string(&f).ok();
        if !path {
            rec.check(now.as_deref() == old, P, || format!("without an output path the file became {now:?}: {}", what()));
            let others = std::fs::read_dir(&dir).map(|d| d.count()).unwrap_or(0);
            rec.check(others <= old.is_some() as usize, P, || format!("files appeared: {}", what()));
            return;
        }
        let want = match &last {
            None => vec![String::new()],
            Some((s, c)) => expected(s, *c),
        };
        rec.check(now.as_ref().map_or(false, |n| want.contains(n)), P, || format!("the file holds {now:?} instead of {:?}: {}", want[0], what()));
        // Twice is the same as once.
        write_solution_file(&ctx);
        let again = std::fs::read_to_string(&f).ok();
        rec.check(again == now, P, || format!("writing again gives {again:?}: {}", what()));
    });
    let _ = std::fs::remove_file(&f);
}

/// Writes the solution while the writes go as planned; returns their number.
fn torn(rec: &mut Rec, inst: &Inst, s: &Sol, old: Option<&str>, plan: &Plan) -> u64 {
    rec.states += 1;
    rec.traces += 1;
    rec.transitions += 1;
    rec.tick();
    let dir = scratch(&format!("torn{}", rec.slot));
    let f = dir.join("out.sol");
    let _ = std::fs::remove_file(&f);
    if let Some(o) = old {
        std::fs::write(&f, o).expect("HARNESS");
    }
    let what = || format!("{} solution {s:?} old content {old:?}, {plan:?}", inst.describe());
    let ctx = inst.ctx_with(|c| c.solution_path = Some(f.to_str().unwrap().to_string()));
    let i = ind(&ctx, s);
    ctx.search_history.borrow_mut().add(&ctx, &i);
    let (r, seen) = faults::writing(plan, || catch_unwind(AssertUnwindSafe(|| write_solution_file(&ctx))));
    let now = std::fs::read_to_string(&f).ok();
    let hard = matches!(plan.error, Some((_, e)) if e != libc::EINTR);
    rec.check(!seen.endless, P, || format!("writing does not end after an error: {}", what()));
    let want = expected(s, i.penalized_cost());
    match r {
        // A failed write that was made good is as well.
        Ok(()) => rec.check(now.as_ref().map_or(false, |n| want.contains(n)), P, || format!("the file holds {now:?} instead of {:?}: {}", want[0], what())),
        Err(_) => rec.check(hard, P, || format!("writing failed: {}", what())),
    };
    let _ = std::fs::remove_file(&f);
    seen.calls
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    let long: &'static str = Box::leak("Route #1: 9 8 7 6 5 4 3 2 1\nRoute #2: 11 10\nCost 123456789\n".repeat(20).into_boxed_str());
    let olds: [Option<&'static str>; 4] = [None, Some(""), Some("x"), Some(long)];
    for n in 1..=(if th { 5 } else { 4 }) {
        for inst in family(n) {
            v.push(unit(format!("one/{}{n}", inst.name), move |rec| {
                let _o = oracle::install(vec![], Policy::First, &[0.5], 0);
                for k in 1..=(if n <= 3 { 4 } else { 3 }) {
                    for s in refm::solutions(n, k) {
                        rec.states += 1;
                        for (i, old) in olds.iter().enumerate() {
                            if i == 0 || i == 3 || rec.states % 7 == 0 {
                                run(rec, &inst, &[s.clone()], *old, true);
                            }
                        }
                        if rec.stop() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    for inst in family(3) {
        v.push(unit(format!("sequences/{}", inst.name), move |rec| {
            let _o = oracle::install(vec![], Policy::First, &[0.5], 0);
            let all = refm::solutions(3, 3);
            for old in olds {
                run(rec, &inst, &[], old, true);
                run(rec, &inst, &[], old, false);
                for (i, a) in all.iter().enumerate() {
                    run(rec, &inst, &[a.clone()], old, false);
                    for b in all.iter().skip(i % 5).step_by(5) {
                        rec.states += 1;
                        run(rec, &inst, &[a.clone(), b.clone()], old, true);
                    }
                    if rec.stop() {
                        return;
                    }
                }
            }
        }));
    }
    // Writes that are cut short, interrupted or fail, at every point.
    for n in [1usize, 3, 4] {
        for inst in family(n) {
            v.push(unit(format!("writes/{}{n}", inst.name), move |rec| {
                let _o = oracle::install(vec![], Policy::First, &[0.5], 0);
                let mut sols = refm::canonical_solutions(n, n);
                sols.truncate(5);
                sols.push(refm::canonical_solutions(n, n).pop().unwrap());
                for s in sols {
                    for old in [None, Some(long)] {
                        for limit in [0usize, 1, 2, 5] {
                            let w = torn(rec, &inst, &s, old, &Plan { limit, ..Plan::default() });
                            for k in 1..=w {
                                torn(rec, &inst, &s, old, &Plan { limit, short: Some((k, 1)), ..Plan::default() });
                                torn(rec, &inst, &s, old, &Plan { limit, error: Some((k, libc::EINTR)), ..Plan::default() });
                                for (e, forever) in [(libc::ENOSPC, true), (libc::EIO, false)] {
                                    torn(rec, &inst, &s, old, &Plan { limit, error: Some((k, e)), forever, ..Plan::default() });
                                }
                            }
                            if rec.stop() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    v.push(unit("nowhere", move |rec| {
        let _o = oracle::install(vec![], Policy::First, &[0.5], 0);
        let inst = &family(2)[0];
        let dir = scratch("nowhere");
        for p in ["", "missing/out.sol"] {
            rec.states += 1;
            let ctx = inst.ctx_with(|c| c.solution_path = Some(dir.join(p).to_str().unwrap().to_string()));
            let i = ind(&ctx, &vec![vec![1, 2]]);
            ctx.search_history.borrow_mut().add(&ctx, &i);
            let r = catch_unwind(AssertUnwindSafe(|| write_solution_file(&ctx)));
            rec.check(r.is_err(), P, || format!("writing to {:?} went wrong silently", dir.join(p)));
        }
    }));
    // Costs around the rounding points and large ones: two locations, cost is twice their distance.
    v.push(unit("costs", move |rec| {
        let _o = oracle::install(vec![], Policy::First, &[0.5], 0);
        for whole in [0u64, 1, 2, 9, 10, 99, 1000, 123_456, 99_999_999, 4_294_967_295, 4_294_967_296, 10_000_000_000] {
            for frac in [0.0, 0.25, 0.4999, 0.5, 0.5001, 0.75, 0.9999] {
                let c = whole as f64 + frac;
                let inst = family(1)[0].with("line", |i| {
                    i.xy = vec![(0.0, 0.0), (c / 2.0, 0.0)];
                    i.dem = vec![0.0, 1.0];
                });
                rec.states += 1;
                run(rec, &inst, &[vec![vec![], vec![1]]], Some("old"), true);
            }
        }
    }));
    // Customers with several digits and many routes.
    v.push(unit("large", move |rec| {
        let _o = oracle::install(vec![], Policy::First, &[0.5], 0);
        for (n, k) in [(30usize, 11usize), (120, 13), (1200, 105)] {
            let inst = crate::inst::large(n, 0);
            let mut s: Sol = vec![vec![]; k];
            for c in 1..=n {
                s[(c * c + 3) % k].push(c);
            }
            run(rec, &inst, &[s], Some("old"), true);
        }
        let _ = Duration::from_secs(0);
    }));
    v
}
