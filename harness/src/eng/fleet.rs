//! The number of vehicles the solver allows itself, for every small multiset of demands.
use super::*;
use crate::core::{unit, Unit};
use crate::inst::Inst;
use crate::oracle::{self, Policy};
use crate::refm;

pub static ENGINE: Engine = Engine { name: "fleet", tags: &["C25"], units };
const P: &[&str] = &["C25"];

fn one(rec: &mut Rec, dem: &[f64], cap: f64) {
    // Loads that fill a number of vehicles only up to rounding are left to the implementation.
    let q = dem.iter().sum::<f64>() / cap;
    if q != q.round() && (q - q.round()).abs() < 1e-9 {
        return;
    }
    rec.states += 1;
    let mut d = vec![0.0];
    d.extend_from_slice(dem);
    let xy: Vec<(f64, f64)> = (0..d.len()).map(|i| (i as f64, (i * i % 7) as f64)).collect();
    let inst = Inst { name: "bins".into(), xy, dem: d, cap, rounded: false, size_limit: 0, lower: None };
    let what = || format!("demands {dem:?} capacity {cap}");
    rec.guard(what, |rec| {
        let ctx = inst.ctx();
        let got = ctx.config.borrow().num_vehicles;
        let total: f64 = dem.iter().sum();
        let lb = (total / cap - 1e-9).ceil().max(0.0) as u64;
        let bins = refm::min_bins(dem, cap) as u64;
        rec.check(got >= lb, P, || format!("{got} vehicles, the load needs {lb}: {}", what()));
        rec.check(got >= bins, P, || format!("{got} vehicles, but the demands need {bins}: {}", what()));
        let low = ctx.vehicle_lower_bound();
        rec.check(low >= lb && low <= bins.max(lb), P, || format!("lower bound {low}, the load needs {lb} and the demands {bins}: {}", what()));
        let formula = (1.2 * low as f64 + 2.0 - 1e-9).ceil() as u64;
        // With that many vehicles the size of the demands cannot matter.
        if formula * 9 >= bins * 11 + 6 {
            rec.check(got == formula, P, || format!("{got} vehicles instead of 1.2*{low}+2 = {formula}: {}", what()));
        } else {
            rec.check(got >= formula, P, || format!("{got} vehicles, less than 1.2*{low}+2 = {formula}: {}", what()));
        }
    });
}

fn multisets(max: usize, left: usize, from: usize, cur: &mut Vec<f64>, f: &mut dyn FnMut(&[f64])) {
    if !cur.is_empty() {
        f(cur);
    }
    if left == 0 {
        return;
    }
    for d in from..=max {
        cur.push(d as f64);
        multisets(max, left - 1, d, cur, f);
        cur.pop();
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    for cap in 1..=(if th { 12usize } else { 9 }) {
        let size = match (th, cap) {
            (false, 0..=4) => 14,
            (false, 5..=6) => 11,
            (false, 7..=8) => 10,
            (false, _) => 8,
            (true, 0..=4) => 20,
            (true, 5..=6) => 15,
            (true, 7..=8) => 13,
            (true, 9..=10) => 11,
            (true, _) => 10,
        };
        for first in 0..=cap {
            v.push(unit(format!("all/cap{cap}/{first}"), move |rec| {
                let _o = oracle::install(vec![], Policy::First, &[0.5], 0);
                let mut cur = vec![first as f64];
                multisets(cap, size - 1, first, &mut cur, &mut |d| {
                    rec.transitions += 1;
                    if !rec.stop() {
                        one(rec, d, cap as f64);
                    }
                });
                rec.sample(|| format!("up to {size} demands of at most {cap}, the smallest {first}"));
            }));
        }
    }
    v.push(unit("families", move |rec| {
        let _o = oracle::install(vec![], Policy::First, &[0.5], 0);
        for cap in [1.0, 2.5, 10.0, 100.0, 0.7] {
            for n in 1..=60usize {
                for frac in [1.0, 0.51, 0.5, 0.501, 0.34, 0.3334, 1.0 / 3.0, 0.26, 0.25, 0.2, 0.01] {
                    let dem: Vec<f64> = vec![cap * frac; n];
                    // Exact only: items that fill a vehicle up to rounding are left to the implementation.
                    let k = (1.0f64 / frac).floor();
                    if ((k * cap * frac) - cap).abs() < 1e-9 && frac != 0.5 && frac != 1.0 && frac != 0.25 {
                        continue;
                    }
                    one(rec, &dem, cap);
                    if n < 26 {
                        let mut mix = dem.clone();
                        mix.extend(vec![cap * 0.4; n / 2]);
                        mix.push(0.0);
                        one(rec, &mix, cap);
                    }
                    if rec.stop() {
                        return;
                    }
                }
            }
        }
    }));
    v
}
