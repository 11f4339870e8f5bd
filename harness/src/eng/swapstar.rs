//! SWAP* against brute force, alone and after other moves (cached insertion positions).
use super::moves::{caches, lists, node, real, targets, Pair};
use super::*;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst, Lcg};
use crate::refm::{self, At, Mv};
use hybridcvrp::solver::improvement::{LinkRoute, SwapStar};

pub static ENGINE: Engine = Engine { name: "swapstar", tags: &["C12", "C23"], units };
const P: &[&str] = &["C12"];

/// One SWAP* step on routes (a, b) of the loaded solution `s`; returns the routes afterwards.
fn step(rec: &mut Rec, p: &mut Pair, s: &Sol, a: usize, b: usize, what: &dyn Fn() -> String) -> Option<Sol> {
    let pen = p.pen * p.mult;
    let (ra, rb) = (&mut p.ls.routes[a] as *mut LinkRoute, &mut p.ls.routes[b] as *mut LinkRoute);
    let improved = unsafe { SwapStar::run(&mut p.ls, ra, rb) };
    rec.transitions += 1;
    rec.traces += 1;
    let what = || format!("SWAP*({a}, {b}) on {s:?} penalty {pen} {} {}", what(), p.inst.describe());
    let Some(t) = lists(&p.ls) else {
        rec.fail(P, || format!("routes are not well linked after {}", what()));
        return None;
    };
    let n = p.inst.n();
    if !rec.check(refm::complete(n, &t), P, || format!("customers lost or duplicated, {t:?}: {}", what())) {
        return None;
    }
    let d = refm::cost(&p.inst, &t, pen) - refm::cost(&p.inst, s, pen);
    let best = refm::best_swap_star(&p.inst, &s[a], &s[b], pen);
    if !improved {
        rec.check(&t == s, P, || format!("no improvement reported but the routes are now {t:?}: {}", what()));
        if p.inst.metric() {
            rec.check(!(best < -1e-5), P, || format!("no improvement found, but an exchange with change {best} exists: {}", what()));
        }
    } else {
        rec.check(d < -1e-7, P, || format!("applied an exchange that changes the cost by {d}, giving {t:?}: {}", what()));
        for r in 0..s.len() {
            rec.check(r == a || r == b || s[r] == t[r], P, || format!("route {r} changed, {t:?}: {}", what()));
        }
        // One customer of each, or one of one.
        let moved = |x: usize, y: usize| s[x].iter().filter(|c| t[y].contains(c)).count();
        let (m1, m2) = (moved(a, b), moved(b, a));
        rec.check(m1 <= 1 && m2 <= 1 && m1 + m2 >= 1, P, || format!("{m1} customers moved one way and {m2} the other, {t:?}: {}", what()));
        let keep = |x: usize| -> bool { s[x].iter().filter(|c| t[x].contains(c)).eq(t[x].iter().filter(|c| s[x].contains(c))) };
        rec.check(keep(a) && keep(b), P, || format!("order of the customers that stay changed, {t:?}: {}", what()));
        if p.inst.metric() {
            rec.check((d - best).abs() <= 1e-5 + 1e-9 * d.abs(), P, || format!("applied change {d}, best exchange {best}, giving {t:?}: {}", what()));
        } else {
            rec.check(d >= best - 1e-5 - 1e-9 * d.abs(), P, || format!("applied change {d} is better than any exchange ({best}), giving {t:?}: {}", what()));
        }
    }
    Some(t)
}

fn pairs(s: &Sol) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for a in 0..s.len() {
        for b in a + 1..s.len() {
            if !s[a].is_empty() && !s[b].is_empty() {
                v.push((a, b));
            }
        }
    }
    v
}

fn improving(p: &mut Pair, s: &Sol) -> Vec<(Mv, usize, At)> {
    let n = p.inst.n();
    let mut v = vec![];
    for u in 1..=n {
        for (at, ms) in targets(s, n) {
            if at == At::Cust(u) {
                continue;
            }
            for m in ms {
                let (pu, pv) = (node(&mut p.ls, At::Cust(u)), node(&mut p.ls, at));
                if unsafe { real(m).delta(&p.ls, pu, pv) } < -1e-6 && refm::apply(s, m, u, at).is_some() {
                    v.push((m, u, at));
                }
            }
        }
    }
    v
}

#[derive(Clone, Debug)]
enum Op {
    Star(usize, usize),
    Move(Mv, usize, At),
}

/// Replays the operations from a fresh load and checks the last one.
fn replay(rec: &mut Rec, p: &mut Pair, s: &Sol, ops: &[Op]) -> Option<Sol> {
    p.load(s);
    let mut cur = s.clone();
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Star(a, b) => {
                let before = &ops[..i];
                cur = step(rec, p, &cur, *a, *b, &|| format!("after {before:?} from {s:?}"))?;
            }
            Op::Move(m, u, v) => {
                let (pu, pv) = (node(&mut p.ls, At::Cust(*u)), node(&mut p.ls, *v));
                p.ls.move_count += 1;
                unsafe { real(*m).perform(&mut p.ls, pu, pv) };
                cur = lists(&p.ls)?;
            }
        }
    }
    Some(cur)
}

fn explore(rec: &mut Rec, p: &mut Pair, s: &Sol, ops: &mut Vec<Op>, depth: usize, moves: bool) {
    if rec.stop() {
        return;
    }
    let Some(cur) = replay(rec, p, s, ops) else { return };
    rec.states += 1;
    if ops.is_empty() || depth == 0 {
        let pen = p.pen * p.mult;
        p.load_fresh(&cur);
        if ops.len() == 1 {
            let d = p.inst.describe();
            let o = format!("{ops:?}");
            caches(rec, &p.ls, Some(&p.fresh), &p.inst, &cur, pen, &|| format!("after {o} from {s:?} {d}"));
        }
    }
    if depth == 0 {
        return;
    }
    let mut next: Vec<Op> = pairs(&cur).into_iter().map(|(a, b)| Op::Star(a, b)).collect();
    // A sequence ends with SWAP*; moves in between change what it may have remembered.
    if moves && depth >= 2 && !ops.is_empty() {
        next.extend(improving(p, &cur).into_iter().map(|(m, u, v)| Op::Move(m, u, v)));
    }
    for op in next {
        ops.push(op);
        explore(rec, p, s, ops, depth - 1, moves);
        ops.pop();
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut v = vec![];
    let mut sizes = vec![(2usize, 2usize, 1usize), (3, 2, 1), (4, 2, 1), (5, 2, 1), (6, 2, 1)];
    if thorough(t) {
        sizes.push((7, 2, 1));
    }
    for (n, k, depth) in sizes {
        for inst in family(n) {
            for pen in [0.05, 3.0, 50.0] {
                let inst = inst.clone();
                v.push(unit(format!("pair/n{n}/{}/p{pen}", inst.name), move |rec| {
                    let mut p = Pair::new(&inst, k, pen, 1.0);
                    for s in refm::solutions(n, k) {
                        rec.guard(|| format!("{s:?} {}", inst.describe()), |rec| explore(rec, &mut p, &s, &mut vec![], depth, false));
                        if rec.stop() {
                            return;
                        }
                    }
                    rec.sample(|| format!("every two-route solution of {}", inst.describe()));
                }));
            }
        }
    }
    // Sequences with three routes.
    let seqs: Vec<(usize, usize)> = if thorough(t) { vec![(4, 3), (4, 4), (5, 3), (5, 4), (6, 3)] } else { vec![(4, 3), (5, 3)] };
    for (n, depth) in seqs {
        for inst in family(n) {
            let stride = if thorough(t) { 1 } else { 1 };
            let all: Vec<Sol> = refm::canonical_solutions(n, 3);
            let total = all.len();
            let chunk = if thorough(t) { 60 } else { 120 };
            for lo in (0..total).step_by(chunk) {
                let inst = inst.clone();
                v.push(unit(format!("seq/n{n}/d{depth}/{}/{lo}", inst.name), move |rec| {
                    for pen in if thorough(rec.tier) { vec![0.05, 2.0, 40.0] } else { vec![2.0] } {
                        let mut p = Pair::new(&inst, 3, pen, 1.0);
                        let all = refm::canonical_solutions(n, 3);
                        for s in all[lo..(lo + chunk).min(total)].iter().step_by(stride) {
                            rec.guard(|| format!("{s:?} {}", inst.describe()), |rec| explore(rec, &mut p, s, &mut vec![], depth, true));
                            if rec.stop() {
                                return;
                            }
                        }
                    }
                    rec.sample(|| format!("all SWAP*/move sequences of length {depth} from every three-route solution of {}", inst.describe()));
                }));
            }
        }
    }
    // Long routes: many insertion positions, several SWAP* rounds with moves in between.
    for n in [9usize, 14, 24] {
        for kind in 0..4 {
            v.push(unit(format!("large/n{n}/k{kind}"), move |rec| {
                let inst: Inst = large(n, kind).with("large_exact", |i| i.rounded = false);
                let mut r = Lcg(3 + (n * 4 + kind) as u64);
                let reps = if thorough(rec.tier) { 200 } else { 20 };
                for k in [2usize, 4] {
                    for pen in [0.2, 25.0] {
                        let mut p = Pair::new(&inst, k, pen, 1.0);
                        for _ in 0..reps {
                            let mut s: Sol = vec![vec![]; k];
                            let mut tour: Vec<usize> = (1..=n).collect();
                            for i in (1..n).rev() {
                                tour.swap(i, r.below(i + 1));
                            }
                            for c in tour {
                                let x = r.below(k);
                                s[x].push(c);
                            }
                            rec.guard(|| format!("{s:?} {}", inst.describe()), |rec| {
                                p.load(&s);
                                let mut cur = s.clone();
                                rec.states += 1;
                                for round in 0..6 {
                                    for (a, b) in pairs(&cur.clone()) {
                                        match step(rec, &mut p, &cur, a, b, &|| format!("round {round} from {s:?}")) {
                                            Some(t) => cur = t,
                                            None => return,
                                        }
                                    }
                                    let im = improving(&mut p, &cur);
                                    if let Some((m, u, v)) = im.get(round * 7 % im.len().max(1)).copied() {
                                        let (pu, pv) = (node(&mut p.ls, At::Cust(u)), node(&mut p.ls, v));
                                        p.ls.move_count += 1;
                                        unsafe { real(m).perform(&mut p.ls, pu, pv) };
                                        match lists(&p.ls) {
                                            Some(t) => cur = t,
                                            None => return,
                                        }
                                    }
                                }
                            });
                            if rec.stop() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    v
}
