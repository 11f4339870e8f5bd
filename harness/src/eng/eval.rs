//! Evaluation of every assignment of customers to ordered routes, and the diversity distance of every pair.
use super::*;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst, Lcg};
use crate::refm;
use hybridcvrp::solver::SolutionEvaluation;

pub static ENGINE: Engine = Engine { name: "eval", tags: &["C02", "C18", "C23"], units };

const P2: &[&str] = &["C02"];
const P18: &[&str] = &["C18"];

fn one(rec: &mut Rec, ctx: &Context, inst: &Inst, ev: &mut SolutionEvaluation, s: &Sol, pen: f64) {
    rec.states += 1;
    rec.traces += 1;
    ctx.config.borrow_mut().penalty_capacity = pen;
    ev.evaluate(ctx, s);
    let want = refm::eval(inst, s, pen);
    let what = || format!("routes {s:?} penalty {pen} {}", inst.describe());
    if !rec.check(ev.routes.len() == s.len(), P2, || format!("{} route evaluations for {} routes: {}", ev.routes.len(), s.len(), what())) {
        return;
    }
    for (r, re) in ev.routes.iter().enumerate() {
        rec.check(refm::close(re.distance, want.dist[r]), P2, || format!("distance of route {r} is {} and should be {}: {}", re.distance, want.dist[r], what()));
        rec.check(refm::close(re.overload, want.over[r]), P2, || format!("overload of route {r} is {} and should be {}: {}", re.overload, want.over[r], what()));
        let wc = want.dist[r] + pen * want.over[r].max(0.0);
        rec.check(refm::close(re.penalized_cost, wc), P2, || format!("cost of route {r} is {} and should be {}: {}", re.penalized_cost, wc, what()));
        if want.over[r] <= 1e-7 || want.over[r] >= 1e-5 {
            rec.check(re.is_feasible() == (want.over[r] <= 1e-7), P2, || format!("feasibility of route {r} is {}: {}", re.is_feasible(), what()));
        }
        rec.transitions += 1;
    }
    rec.check(refm::close(ev.penalized_cost, want.cost), P2, || format!("cost is {} and should be {}: {}", ev.penalized_cost, want.cost, what()));
    if want.over.iter().all(|o| *o <= 1e-7 || *o >= 1e-5) {
        rec.check(ev.is_feasible() == want.over.iter().all(|o| *o <= 1e-7), P2, || format!("feasible={} : {}", ev.is_feasible(), what()));
    }
    for r in s {
        for (p, &c) in r.iter().enumerate() {
            let pr = if p == 0 { 0 } else { r[p - 1] };
            let nx = if p + 1 == r.len() { 0 } else { r[p + 1] };
            rec.check(ev.predecessors[c] == pr, P2, || format!("predecessor of {c} is {}: {}", ev.predecessors[c], what()));
            rec.check(ev.successors[c] == nx, P2, || format!("successor of {c} is {}: {}", ev.successors[c], what()));
        }
    }
    rec.sample(|| what());
}

pub fn tenths(n: usize) -> Inst {
    let mut i = family(n)[0].clone();
    i.name = "tenths".into();
    for c in 1..=n {
        i.dem[c] = 0.1 * (1 + c % 3) as f64;
    }
    i.cap = 0.3;
    i
}

pub fn pens() -> Vec<f64> {
    vec![1.0, 0.0001, 37.5, 1e4]
}

fn units(t: Tier) -> Vec<Unit> {
    let mut v = vec![];
    let nmax = if thorough(t) { 7 } else { 6 };
    for n in 1..=nmax {
        for inst in family(n).into_iter().chain([tenths(n)]) {
            let kmax = if n >= 7 { 3 } else { 4 };
            v.push(unit(format!("solutions/n{n}/{}", inst.name), move |rec| {
                let ctx = inst.ctx_k(kmax, 1.0, |_| ());
                // One object for everything: whatever it keeps from earlier evaluations must not matter.
                let mut ev = SolutionEvaluation::new();
                let what = || inst.describe();
                rec.guard(what, |rec| {
                    for k in (1..=kmax).chain([2, 1]) {
                        refm::all_solutions(n, k, &mut |s| {
                            if rec.stop() {
                                return;
                            }
                            rec.tick();
                            for p in pens() {
                                one(rec, &ctx, &inst, &mut ev, s, p);
                            }
                        });
                    }
                });
            }));
        }
    }
    // Larger instances: every rotation and block cut of structured tours.
    for n in [20usize, 61, 230] {
        for kind in 0..4 {
            v.push(unit(format!("large/n{n}/k{kind}"), move |rec| {
                let inst = large(n, kind);
                let ctx = inst.ctx_k(n, 1.0, |_| ());
                let mut ev = SolutionEvaluation::new();
                let mut r = Lcg(5 + n as u64);
                let reps = if thorough(rec.tier) { 400 } else { 60 };
                for rep in 0..reps {
                    let mut tour: Vec<usize> = (1..=n).collect();
                    for i in (1..n).rev() {
                        tour.swap(i, r.below(i + 1));
                    }
                    let k = 1 + rep % (n / 2);
                    let mut s: Sol = vec![vec![]; k];
                    for (i, c) in tour.into_iter().enumerate() {
                        s[if rep % 2 == 0 { i * k / n } else { r.below(k) }].push(c);
                    }
                    rec.guard(|| format!("{s:?}"), |rec| {
                        for p in pens() {
                            one(rec, &ctx, &inst, &mut ev, &s, p);
                        }
                    });
                }
            }));
        }
    }
    // Diversity distance: all pairs.
    let mut sets: Vec<(usize, usize)> = vec![(1, 1), (1, 3), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3), (5, 1), (5, 2)];
    if thorough(t) {
        sets.extend([(4, 4), (5, 3)]);
    }
    for (n, k) in sets {
        let total = refm::solutions(n, k).len();
        let chunk = (2_000_000 / total).max(40);
        for lo in (0..total).step_by(chunk) {
            v.push(unit(format!("pairs/n{n}/k{k}/{lo}"), move |rec| {
                let inst = &family(n)[0];
                let ctx = inst.ctx_k(k, 1.0, |_| ());
                let sols = refm::solutions(n, k);
                let what = || format!("n{n} k{k}");
                rec.guard(what, |rec| {
                    let inds: Vec<_> = sols.iter().map(|s| ind(&ctx, s)).collect();
                    for a in lo..(lo + chunk).min(total) {
                        rec.tick();
                        for b in 0..total {
                            let want = refm::broken_pairs(&sols[a], &sols[b], n);
                            let got = inds[a].calculate_broken_pairs_distance(&inds[b]);
                            rec.check(want == got, P18, || format!("distance from {:?} to {:?} is {got} and should be {want}", sols[a], sols[b]));
                            rec.transitions += 1;
                        }
                        rec.states += 1;
                        rec.traces += total as u64;
                        if rec.stop() {
                            return;
                        }
                    }
                    rec.sample(|| format!("{:?} against all {total} solutions", sols[lo]));
                });
            }));
        }
    }
    // Larger pairs: relatives of a solution (route order, direction, relocations) and shuffles.
    for n in [8usize, 30, 205] {
        v.push(unit(format!("pairs/large/{n}"), move |rec| {
            let inst = large(n, 0);
            let k = 3 + n / 10;
            let ctx = inst.ctx_k(k, 1.0, |_| ());
            let mut r = Lcg(99 + n as u64);
            let mut sols: Vec<Sol> = vec![];
            let reps = if thorough(rec.tier) { 60 } else { 25 };
            for rep in 0..reps {
                let mut s: Sol = if rep % 5 == 0 || sols.is_empty() {
                    let mut tour: Vec<usize> = (1..=n).collect();
                    for i in (1..n).rev() {
                        tour.swap(i, r.below(i + 1));
                    }
                    let mut s = vec![vec![]; k];
                    for (i, c) in tour.into_iter().enumerate() {
                        s[i * (k - 1) / n].push(c);
                    }
                    s
                } else {
                    sols[sols.len() - 1].clone()
                };
                match rep % 5 {
                    1 => s.reverse(),
                    2 => {
                        let x = r.below(k);
                        s[x].reverse()
                    }
                    3 => s.iter_mut().for_each(|r| r.reverse()),
                    4 => {
                        let x = r.below(k);
                        if let Some(c) = s[x].pop() {
                            let y = r.below(k);
                            s[y].insert(0, c);
                        }
                    }
                    _ => {}
                }
                sols.push(s);
            }
            rec.guard(|| format!("n{n}"), |rec| {
                let inds: Vec<_> = sols.iter().map(|s| ind(&ctx, s)).collect();
                for a in 0..sols.len() {
                    for b in 0..sols.len() {
                        let want = refm::broken_pairs(&sols[a], &sols[b], n);
                        let got = inds[a].calculate_broken_pairs_distance(&inds[b]);
                        rec.check(want == got, P18, || format!("distance from {:?} to {:?} is {got} and should be {want}", sols[a], sols[b]));
                        rec.transitions += 1;
                        rec.traces += 1;
                    }
                    rec.states += 1;
                }
            });
        }));
    }
    v
}
