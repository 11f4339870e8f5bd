//! Distances and neighbour lists.
use super::*;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst};
use crate::refm::close;
use hybridcvrp::models::{CorrelationMatrix, DistanceMatrix, MatrixProvider};

pub static ENGINE: Engine = Engine { name: "matrix", tags: &["C04", "C05", "C23"], units };

const P4: &[&str] = &["C04"];
const P5: &[&str] = &["C05"];

/// Distances of `m` against the reference of the instance, customer indices going through `map`.
fn distances(rec: &mut Rec, inst: &Inst, m: &DistanceMatrix, map: &[usize], precomputed: Option<bool>, what: &dyn Fn() -> String) {
    let n = map.len();
    rec.check(m.size() == n, P4, || format!("size {} for {n} locations: {}", m.size(), what()));
    let mut max: f64 = 0.0;
    let d = |i: usize, j: usize| if map[i] == map[j] { 0.0 } else { inst.d(map[i], map[j]) };
    for i in 0..n {
        for j in 0..n {
            let (g, w) = (m.get(i, j), d(i, j));
            max = max.max(w);
            rec.check(close(g, w), P4, || format!("distance({i},{j}) is {g} and should be {w}: {}", what()));
            rec.check(m.get(j, i) == g, P4, || format!("distance({i},{j}) is {g} but distance({j},{i}) is {}: {}", m.get(j, i), what()));
            rec.states += 1;
        }
    }
    // Row-major runs: whole rows, and for small matrices every start and length.
    let all = n <= 6;
    for i in 0..n {
        for j in 0..n {
            if !all && !(j == 0 || j == n - 1 || (i * 7 + j * 3) % 11 == 0) {
                continue;
            }
            let left = n * n - (i * n + j);
            for len in 0..=left {
                if !all && !(len == 1 || len == n || len == left || len == 2) {
                    continue;
                }
                if !all && len == left && i + 2 < n && n > 40 {
                    continue;
                }
                let got = m.get_vec(i, j, len);
                rec.transitions += 1;
                if !rec.check(got.len() == len, P4, || format!("run of {len} from ({i},{j}) has {} values: {}", got.len(), what())) {
                    continue;
                }
                for (k, g) in got.iter().enumerate() {
                    let p = i * n + j + k;
                    let w = d(p / n, p % n);
                    if !rec.check(close(*g, w), P4, || format!("value {k} of the run from ({i},{j}) is {g} and should be {w}: {}", what())) {
                        break;
                    }
                }
            }
        }
    }
    if let Some(p) = precomputed {
        rec.check(!p || m.max().is_some(), P4, || format!("no maximum known although precomputed: {}", what()));
    }
    if let Some(g) = m.max() {
        rec.check((g - max).abs() <= 2e-6, P4, || format!("maximum is {g} and should be {max}: {}", what()));
    }
    rec.traces += 1;
}

/// Neighbour lists against the distances of the instance.
pub fn neighbours(rec: &mut Rec, inst: &Inst, c: &CorrelationMatrix, map: &[usize], what: &dyn Fn() -> String) {
    let n = map.len();
    let width = 200.min(n - 2);
    let d = |i: usize, j: usize| if map[i] == map[j] { 0.0 } else { inst.d(map[i], map[j]) };
    for i in 0..n {
        let l = c.get(i);
        rec.states += 1;
        rec.transitions += l.len() as u64;
        if !rec.check(l.len() == width, P5, || format!("list of {i} has {} entries and should have {width}: {}", l.len(), what())) {
            continue;
        }
        let mut seen = vec![false; n];
        let mut ok = true;
        for &j in l {
            let good = j > 0 && j < n && j != i && !seen[j];
            ok &= rec.check(good, P5, || format!("list of {i} has {j} (own location, depot, outside or twice): {l:?} {}", what()));
            if good {
                seen[j] = true;
            }
        }
        if !ok {
            continue;
        }
        for w in l.windows(2) {
            rec.check(d(i, w[0]) <= d(i, w[1]) + 1e-9, P5, || format!("list of {i} is not in order of distance at {w:?}: {}", what()));
        }
        if let Some(&last) = l.last() {
            for j in 1..n {
                if j != i && !seen[j] {
                    rec.check(d(i, j) >= d(i, last) - 1e-9, P5, || format!("list of {i} omits {j}, which is closer than its entry {last}: {}", what()));
                }
            }
        }
    }
    rec.traces += 1;
}

fn provider(rec: &mut Rec, inst: &Inst, m: &MatrixProvider, map: &[usize], pre: Option<bool>, what: &dyn Fn() -> String) {
    distances(rec, inst, &m.distance, map, pre, what);
    neighbours(rec, inst, &m.correlation, map, what);
}

fn submaps(n: usize) -> Vec<Vec<usize>> {
    // n: highest customer. Every way to take up to three customers in order, and a few longer ones.
    let mut v = vec![];
    for a in 1..=n {
        v.push(vec![0, a]);
        for b in 1..=n {
            if b != a {
                v.push(vec![0, a, b]);
                for c in 1..=n {
                    if c != a && c != b {
                        v.push(vec![0, a, b, c]);
                    }
                }
            }
        }
    }
    let mut full: Vec<usize> = (0..=n).collect();
    v.push(full.clone());
    full[1..].reverse();
    v.push(full);
    v
}

fn units(t: Tier) -> Vec<Unit> {
    let mut v = vec![];
    let nmax = if thorough(t) { 6 } else { 5 };
    for n in 1..=nmax {
        for inst in family(n) {
            for rounded in [false, true] {
                let inst = inst.with(&format!("{}_r{rounded}", inst.name), |i| i.rounded = rounded);
                v.push(unit(format!("small/n{n}/{}", inst.name), move |rec| {
                    for limit in [0u64, 1, n as u64 - 1, n as u64, n as u64 + 1, 2000] {
                        let inst = inst.with(&inst.name, |i| i.size_limit = limit);
                        let pre = (n as u64) < limit || inst.lower.is_some();
                        let what = || inst.describe();
                        rec.guard(what, |rec| {
                            let ctx = inst.ctx();
                            let id: Vec<usize> = (0..=n).collect();
                            provider(rec, &inst, &ctx.matrix_provider, &id, Some(pre), &what);
                            for m1 in submaps(n) {
                                let sub = ctx.matrix_provider.from_mapping(&m1);
                                let w1 = || format!("mapping {m1:?} of {}", inst.describe());
                                provider(rec, &inst, &sub, &m1, None, &w1);
                                // A sub-problem of the sub-problem.
                                for m2 in submaps(m1.len() - 1) {
                                    if m2.len() < 3 && m1.len() > 3 {
                                        continue;
                                    }
                                    let both: Vec<usize> = m2.iter().map(|&i| m1[i]).collect();
                                    let sub2 = sub.from_mapping(&m2);
                                    let w2 = || format!("mapping {m2:?} of mapping {m1:?} of {}", inst.describe());
                                    provider(rec, &inst, &sub2, &both, None, &w2);
                                    if rec.stop() {
                                        return;
                                    }
                                }
                            }
                            rec.sample(what);
                        });
                    }
                }));
            }
        }
    }
    // Coordinates on a small grid with halves: every placement of two customers around a depot.
    for rounded in [false, true] {
        v.push(unit(format!("grid/r{rounded}"), move |rec| {
            let vals = [-2.5, -1.0, 0.0, 0.5, 3.0, 1e6];
            for &ax in &vals {
                for &ay in &vals {
                    for &bx in &vals {
                        for &by in &vals {
                            for limit in [0u64, 3, 2000] {
                                let inst = Inst { name: "grid".into(), xy: vec![(0.5, -1.0), (ax, ay), (bx, by)], dem: vec![0.0, 1.0, 1.0], cap: 2.0, rounded, size_limit: limit, lower: None };
                                let what = || inst.describe();
                                rec.guard(what, |rec| {
                                    let ctx = inst.ctx();
                                    provider(rec, &inst, &ctx.matrix_provider, &[0, 1, 2], Some(2 < limit), &what);
                                });
                                if rec.stop() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }));
    }
    // Around the list-length limit and well above it; lazily computed and stored.
    let mut ns = vec![12usize, 199, 200, 201, 202, 203, 260];
    if thorough(t) {
        ns.extend([330, 450, 700]);
    }
    for n in ns {
        for kind in 0..4 {
            v.push(unit(format!("large/n{n}/k{kind}"), move |rec| {
                for limit in [0u64, n as u64, n as u64 + 1] {
                    let inst = large(n, kind).with("large", |i| i.size_limit = limit);
                    let what = || format!("large({n},{kind}) limit {limit}");
                    rec.guard(what, |rec| {
                        let ctx = inst.ctx();
                        let id: Vec<usize> = (0..=n).collect();
                        provider(rec, &inst, &ctx.matrix_provider, &id, Some((n as u64) < limit), &what);
                        let mut m1: Vec<usize> = vec![0];
                        m1.extend((1..=n).rev().filter(|i| i % 3 != 1));
                        let sub = ctx.matrix_provider.from_mapping(&m1);
                        provider(rec, &inst, &sub, &m1, None, &|| format!("{}, every customer but each third, reversed", what()));
                        let m2: Vec<usize> = (0..m1.len()).step_by(2).collect();
                        let both: Vec<usize> = m2.iter().map(|&i| m1[i]).collect();
                        provider(rec, &inst, &sub.from_mapping(&m2), &both, None, &|| format!("{}, mapped twice", what()));
                        rec.sample(what);
                    });
                }
            }));
        }
    }
    v
}
