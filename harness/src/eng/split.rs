//! The split of a giant tour against the cheapest cut found by plain dynamic programming.
use super::*;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst, Lcg};
use crate::refm;
use hybridcvrp::solver::genetic::Split;

pub static ENGINE: Engine = Engine { name: "split", tags: &["C09", "C23"], units };
const P: &[&str] = &["C09"];

struct Case<'a> {
    inst: &'a Inst,
    linear: bool,
    factor: f64,
    slots: usize,
    k: usize,
    pen: f64,
}

fn one(rec: &mut Rec, ctx: &Context, split: &mut Split, tour: &[usize], c: &Case) {
    {
        let mut cfg = ctx.config.borrow_mut();
        cfg.penalty_capacity = c.pen;
        cfg.linear_split = c.linear;
        cfg.split_capacity_factor = c.factor;
    }
    *ctx.iteration.borrow_mut() = 1 + (c.slots % 2) as u64;
    let n = c.inst.n();
    let what = || format!("tour {tour:?} at most {} routes, {} slots, linear={} factor={} penalty {} {}", c.k, c.slots, c.linear, c.factor, c.pen, c.inst.describe());
    rec.states += 1;
    rec.guard(what, |rec| {
        let mut i = Individual::new(tour.to_vec(), 0);
        split.run(ctx, &mut i, c.k as u64);
        rec.traces += 1;
        rec.transitions += n as u64;
        if !consistent(rec, c.inst, &i, c.pen, P, &what) {
            return;
        }
        rec.check(i.phenotype.len() == c.slots, P, || format!("{} route slots: {}", i.phenotype.len(), what()));
        let used = nonempty(&i.phenotype);
        // Consecutive pieces: ordered by their first customer's place in the tour they give it back.
        let at: Vec<usize> = {
            let mut at = vec![0; n + 1];
            for (p, &x) in tour.iter().enumerate() {
                at[x] = p;
            }
            at
        };
        let mut pieces = used.clone();
        pieces.sort_by_key(|r| at[r[0]]);
        if !rec.check(pieces.concat() == tour, P, || format!("routes {used:?} are not consecutive pieces: {}", what())) {
            return;
        }
        let total: f64 = c.inst.dem.iter().sum();
        let lb = (total / c.inst.cap).ceil() as usize;
        let k = c.k.max(lb);
        rec.check(used.len() <= k, P, || format!("{} routes although {k} are allowed: {}", used.len(), what()));
        let got = refm::cost(c.inst, &used, c.pen);
        let bound = if c.linear { f64::INFINITY } else { c.inst.cap * c.factor };
        let want = refm::best_split(c.inst, tour, c.pen, k, bound);
        if want.is_finite() {
            let tol = 1e-5 + 1e-8 * want.abs();
            rec.check(got <= want + tol, P, || format!("routes {used:?} cost {got} but a cut with cost {want} exists: {}", what()));
            let free = refm::best_split(c.inst, tour, c.pen, k, f64::INFINITY);
            rec.check(got >= want - tol, P, || format!("routes {used:?} cost {got}, below the minimum {want} over routes within {bound}: {}", what()));
            rec.check(got >= free - tol, P, || format!("routes {used:?} cost {got}, below the minimum {free}: {}", what()));
        }
    });
}

fn cases(inst: &Inst, slots: usize, full: bool) -> Vec<Case<'_>> {
    let mut v = vec![];
    for k in 1..=slots {
        for pen in if full { vec![0.0001, 1.0, 3.7, 1e7] } else { vec![0.0001, 2.0, 1e7] } {
            v.push(Case { inst, linear: true, factor: 1.5, slots, k, pen });
            for factor in [1.0, 1.5, 4.0] {
                v.push(Case { inst, linear: false, factor, slots, k, pen });
            }
        }
    }
    v
}

fn units(t: Tier) -> Vec<Unit> {
    let mut v = vec![];
    let nmax = if thorough(t) { 7 } else { 6 };
    for n in 1..=nmax {
        let mut insts = family(n);
        // Very tight and very loose vehicles.
        insts.push(family(n)[0].with("generic_cap_max", |i| i.cap = i.dem.iter().cloned().fold(1.0, f64::max)));
        insts.push(family(n)[0].with("generic_loose", |i| i.cap = 100.0));
        insts.push(family(n)[0].with("all_zero_demand", |i| i.dem.iter_mut().for_each(|d| *d = 0.0)));
        insts.push(family(n)[0].with("one_zero_pairs", |i| {
            for (j, d) in i.dem.iter_mut().enumerate() {
                *d = if j == 0 || j % 2 == 0 { 0.0 } else { 4.5 };
            }
        }));
        for inst in insts {
            let total: f64 = inst.dem.iter().sum();
            let lb = (total / inst.cap).ceil() as usize;
            let natural = (1.2 * lb as f64 + 2.0).ceil() as usize;
            let mut slotset = vec![natural];
            if n <= 5 || thorough(t) {
                slotset.push(lb.max(1));
                slotset.push(natural + 2);
            }
            slotset.dedup();
            for slots in slotset {
                if inst.dem.iter().any(|&d| d > inst.cap) {
                    continue;
                }
                let inst = inst.clone();
                v.push(unit(format!("tours/n{n}/{}/slots{slots}", inst.name), move |rec| {
                    let ctx = inst.ctx_k(slots, 1.0, |_| ());
                    let mut split = Split::new(&ctx);
                    let cs = cases(&inst, slots, n <= 5);
                    refm::perms(n, &mut |p| {
                        for c in &cs {
                            if rec.stop() {
                                return;
                            }
                            one(rec, &ctx, &mut split, p, c);
                        }
                    });
                    rec.sample(|| format!("all {n}! tours of {}", inst.describe()));
                }));
            }
        }
    }
    for n in [9usize, 17, 40, 90] {
        for kind in 0..4 {
            v.push(unit(format!("large/n{n}/k{kind}"), move |rec| {
                let inst = large(n, kind);
                let total: f64 = inst.dem.iter().sum();
                let lb = (total / inst.cap).ceil() as usize;
                let slots = (1.2 * lb as f64 + 2.0).ceil() as usize;
                let ctx = inst.ctx_k(slots, 1.0, |_| ());
                let mut split = Split::new(&ctx);
                let mut r = Lcg(7 + (n * 4 + kind) as u64);
                let reps = if thorough(rec.tier) { 3000 / n } else { 400 / n };
                for _ in 0..reps.max(3) {
                    let mut tour: Vec<usize> = (1..=n).collect();
                    for i in (1..n).rev() {
                        tour.swap(i, r.below(i + 1));
                    }
                    for k in [1, lb, (lb + slots) / 2, slots] {
                        for pen in [0.0001, 0.5, 20.0, 1e7] {
                            for (linear, factor) in [(true, 1.5), (false, 1.5), (false, 1.0), (false, 3.0)] {
                                one(rec, &ctx, &mut split, &tour, &Case { inst: &inst, linear, factor, slots, k: k.max(1), pen });
                                if rec.stop() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    v
}
