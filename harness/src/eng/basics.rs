//! The building blocks everything rests on: comparison with tolerance, random draws.
use super::*;
use crate::core::{unit, Unit};
use crate::oracle::{self, Policy};
use hybridcvrp::utils::{FloatCompare, Random};
use std::collections::{HashMap, HashSet};
use std::hash::BuildHasher;

pub static COMPARE: Engine = Engine { name: "compare", tags: &["C30"], units: compare_units };
pub static RANDOM: Engine = Engine { name: "random", tags: &["C31"], units: random_units };
const CMP: &[&str] = &["C30"];
const RND: &[&str] = &["C31"];
const EPS: f64 = 0.000001;

fn ulp(x: f64) -> f64 {
    f64::from_bits(x.abs().to_bits() + 1) - x.abs()
}

/// Judges every comparison of two numbers.
fn pair(rec: &mut Rec, a: f64, b: f64) {
    rec.states += 1;
    rec.traces += 1;
    rec.transitions += 5;
    let r = [a.approx_lt(b), a.approx_lte(b), a.approx_gt(b), a.approx_gte(b), a.approx_eq(b)];
    let q = [a.approx_lt(&b), a.approx_lte(&b), a.approx_gt(&b), a.approx_gte(&b), a.approx_eq(&b)];
    let m = [b.approx_gt(a), b.approx_gte(a), b.approx_lt(a), b.approx_lte(a), b.approx_eq(a)];
    let what = || format!("{a:?} against {b:?}: less {} less-or-equal {} greater {} greater-or-equal {} equal {}", r[0], r[1], r[2], r[3], r[4]);
    rec.check(r == q, CMP, || format!("by value and by reference {q:?} differ: {}", what()));
    let d = b - a;
    if d.is_finite() {
        // Where rounding of the bound itself decides, either answer is right.
        if (d.abs() - EPS).abs() > 4.0 * ulp(a.abs().max(b.abs()).max(EPS)) {
            let w = [d > EPS, d > -EPS, d < -EPS, d < EPS, d.abs() < EPS];
            rec.check(r == w, CMP, || format!("expected {w:?}: {}", what()));
            rec.check(r == m, CMP, || format!("the other way round {m:?}: {}", what()));
        }
        rec.check(!(r[0] && r[2]) && (!r[4] || r[1] && r[3]) && r[4] == m[4] && r[1] == m[1] && r[3] == m[3], CMP, || format!("contradictory: {}", what()));
    } else if a != b {
        let w = [a < b, a < b, a > b, a > b, false];
        rec.check(r == w, CMP, || format!("expected {w:?}: {}", what()));
    } else {
        rec.check(!r[0] && !r[2], CMP, || format!("expected neither less nor greater: {}", what()));
    }
}

/// Every sequence of draws of `f` with its probability: the probabilities of the results.
fn chances<K: std::hash::Hash + Eq>(rec: &mut Rec, f: &dyn Fn(&Random) -> K, mut judge: impl FnMut(&mut Rec, &K)) -> (HashMap<K, f64>, u64) {
    let mut p: HashMap<K, f64> = HashMap::new();
    let (n, _) = oracle::explore(Policy::First, &[0.5], 64, None, 1 << 22, |st| {
        let k = f(&Random::from_seed(1));
        rec.states += 1;
        rec.traces += 1;
        rec.tick();
        judge(rec, &k);
        let w: f64 = st.borrow().trace.iter().map(|c| 1.0 / c.n as f64).product();
        *p.entry(k).or_insert(0.0) += w;
        true
    });
    (p, n)
}

fn fair<K: std::hash::Hash + Eq + std::fmt::Debug>(rec: &mut Rec, p: &HashMap<K, f64>, outcomes: usize, what: &dyn Fn() -> String) {
    rec.check(p.len() == outcomes, RND, || format!("{} different results, {outcomes} are possible: {}", p.len(), what()));
    let w = 1.0 / outcomes as f64;
    let odd = p.iter().find(|(_, &x)| (x - w).abs() > 1e-9);
    rec.check(odd.is_none(), RND, || format!("{odd:?} instead of probability {w}: {}", what()));
}

fn draws(rec: &mut Rec, th: bool) {
    // Every draw, through the controlled generator.
    for n in 0..=(if th { 9usize } else { 8 }) {
        let what = || format!("shuffling {n} elements");
        rec.guard(what, |rec| {
            let (p, _) = chances(
                rec,
                &|r: &Random| {
                    let mut v: Vec<usize> = (0..n).collect();
                    r.shuffle(&mut v);
                    v
                },
                |rec, v| {
                    let mut s = v.clone();
                    s.sort_unstable();
                    rec.check(s == (0..n).collect::<Vec<_>>(), RND, || format!("{v:?}: {}", what()));
                },
            );
            fair(rec, &p, (1..=n).product(), &what);
        });
    }
    for lower in 0..7usize {
        for upper in lower + 1..=lower + (if th { 40 } else { 15 }) {
            let what = || format!("a number from {lower} to {upper} exclusive");
            rec.guard(what, |rec| {
                let (p, _) = chances(rec, &|r: &Random| r.range_usize(lower, upper), |rec, v| {
                    rec.check((lower..upper).contains(v), RND, || format!("{v}: {}", what()));
                });
                fair(rec, &p, upper - lower, &what);
            });
        }
    }
    for n in 0..=(if th { 8usize } else { 7 }) {
        for k in 0..=n {
            let what = || format!("{k} of {n} elements");
            rec.guard(what, |rec| {
                let (p, _) = chances(rec, &|r: &Random| r.sample_from_vec((0..n).collect(), k), |rec, v| {
                    let s: HashSet<usize> = v.iter().copied().collect();
                    rec.check(v.len() == k && s.len() == k && v.iter().all(|x| *x < n), RND, || format!("{v:?}: {}", what()));
                });
                fair(rec, &p, (n - k + 1..=n).product(), &what);
            });
        }
    }
    oracle::clear();
}

/// Reals at the edges of what the generator below yields: below one for every one of them.
fn edges(rec: &mut Rec) {
    let mut reals: Vec<f64> = vec![0.0, 0.5];
    for k in 1..=53 {
        let step = 0.5f64.powi(k);
        reals.extend([step, 1.0 - step, 0.5 - step / 2.0, 1.0 - step - 0.5f64.powi(53)]);
    }
    reals.retain(|r| (0.0..1.0).contains(r));
    for &r in &reals {
        let what = || format!("a real where the generator yields {r:?}");
        rec.states += 1;
        rec.traces += 1;
        rec.guard(what, |rec| {
            let st = oracle::install(vec![], oracle::Policy::First, &[r], 0);
            let g = Random::from_seed(1);
            let got = g.real();
            rec.check((0.0..1.0).contains(&got), RND, || format!("{got:?}: {}", what()));
            // Drawn from that real alone, it is that real.
            if st.borrow().draws == 1 {
                rec.check((got - r).abs() < 1e-6, RND, || format!("{got:?}: {}", what()));
            }
        });
        oracle::clear();
    }
    rec.sample(|| format!("{} reals next to 0, 1/2 and 1", reals.len()));
}

/// The generator itself: what a seed determines.
fn seeds(rec: &mut Rec, from: u64, to: u64) {
    let course = |r: &Random| -> (Vec<u64>, Vec<usize>) {
        let mut v: Vec<usize> = (0..9).collect();
        r.shuffle(&mut v);
        let mut a: Vec<u64> = (0..12).map(|_| r.real().to_bits()).collect();
        a.extend((1..30).map(|k| r.range_usize(k, 3 * k) as u64));
        a.extend(r.sample_from_vec((0..7u64).collect(), 4));
        (a, v)
    };
    for seed in from..to {
        rec.states += 1;
        rec.traces += 1;
        let what = || format!("seed {seed}");
        rec.guard(what, |rec| {
            let r = Random::from_seed(seed);
            rec.check(r.seed == Some(seed), RND, || format!("remembers {:?}: {}", r.seed, what()));
            let a = course(&r);
            let further = course(&r);
            rec.check(a != further, RND, || format!("the same numbers twice: {}", what()));
            let b = course(&Random::from_seed(seed));
            rec.check(a == b, RND, || format!("{a:?} and {b:?} from equal seeds: {}", what()));
            r.reset();
            let c = course(&r);
            rec.check(a == c, RND, || format!("starts with {a:?} but after a reset {c:?}: {}", what()));
            for _ in 0..200 {
                let x = r.real();
                rec.check((0.0..1.0).contains(&x), RND, || format!("a real {x}: {}", what()));
                rec.transitions += 1;
            }
            // Clones of equal generators are equal.
            let (p, q) = (Random::from_seed(seed), Random::from_seed(seed));
            let (p2, q2) = (p.clone(), q.clone());
            rec.check(course(&p2) == course(&q2) && course(&p) == course(&q), RND, || format!("clones differ: {}", what()));
            rec.check(p2.seed == Some(seed), RND, || format!("a clone remembers {:?}: {}", p2.seed, what()));
            // Hash keys follow the seed alone.
            for salt in 1..4 {
                crate::hash::salt(salt);
                let h: Vec<u64> = (0..5u64).map(|x| p.random_state().hash_one(x)).collect();
                let g: Vec<u64> = (0..5u64).map(|x| q2.random_state().hash_one(x)).collect();
                crate::hash::salt(salt + 10);
                let i: Vec<u64> = (0..5u64).map(|x| p.random_state().hash_one(x)).collect();
                rec.check(h == g && h == i, RND, || format!("hash keys differ: {}", what()));
            }
        });
        if rec.stop() {
            return;
        }
    }
}

fn compare_units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    let mut base: Vec<f64> = vec![0.0, -0.0, EPS, -EPS, EPS / 2.0, 0.5, 1.0, 3.0, 10.0, 99.9999995, 1234.5, -7.25, 65536.0, 1e6, 12345678.9, 1e9, -1e6, f64::MIN_POSITIVE, 1e-300, 2.0 * EPS, 3e-6, 1e12, 1e15];
    {
        for k in 0..(if th { 180 } else { 60 }) {
            base.push(0.1 * k as f64);
            base.push(7.0f64.powi(k / (if th { 12 } else { 6 })) * 1.3);
        }
    }
    let nb = base.len();
    for (i, a) in base.clone().into_iter().enumerate() {
        let base = base.clone();
        v.push(unit(format!("number/{i}"), move |rec| {
            let mut other: Vec<f64> = base.clone();
            other.extend([f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 1e30, 1e29]);
            let steps: i32 = if th { 20000 } else { 2000 };
            for k in -steps..=steps {
                other.push(a + k as f64 * 1e-8);
                other.push(a + k as f64 * 1e-7);
                other.push(a + k as f64 * 0.37);
            }
            for centre in [a, a + EPS, a - EPS, a + 2.0 * EPS] {
                let mut x = centre;
                let mut y = centre;
                for _ in 0..40 {
                    x += ulp(x);
                    y -= ulp(y);
                    other.push(x);
                    other.push(y);
                }
            }
            for &b in &other {
                pair(rec, a, b);
                pair(rec, b, a);
                pair(rec, -a, -b);
            }
            for x in [f64::INFINITY, f64::NEG_INFINITY] {
                for &b in &other {
                    pair(rec, x, b);
                }
            }
            rec.sample(|| format!("{a} (of {nb}) against {} numbers", other.len()));
        }));
    }
    v
}

fn random_units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    v.push(unit("draws", move |rec| draws(rec, th)));
    v.push(unit("edges", edges));
    for k in 0..(if th { 64u64 } else { 8 }) {
        v.push(unit(format!("seeds/{k}"), move |rec| {
            seeds(rec, k * 500, k * 500 + 500);
            seeds(rec, (8 << (k % 60)) - 3, (8 << (k % 60)) + 3);
        }));
    }
    // Around every power of two.
    v.push(unit("seeds/powers", move |rec| {
        for k in 0..60 {
            seeds(rec, (8u64 << k) - 3, (8u64 << k) + 4);
        }
    }));
    v
}
