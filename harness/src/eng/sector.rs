//! Circle sectors and polar angles.
use super::*;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst};
use crate::refm::{angle_ok, arc_has, arcs_meet};
use hybridcvrp::models::CircleSector;

pub static ENGINE: Engine = Engine { name: "sector", tags: &["C13", "C23"], units };
const P: &[&str] = &["C13"];

/// The sector of a route that visits customers with these angles in this order.
fn build(angles: &[i32], s: &mut CircleSector) {
    s.reset();
    for &a in angles {
        s.extend(a);
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut v = vec![];
    let alpha: Vec<i32> = if thorough(t) { vec![0, 1, 2, 16384, 20000, 32767, 32768, 32769, 49152, 65534, 65535] } else { vec![0, 1, 16384, 32767, 32768, 32769, 49152, 65535] };
    let depth = if thorough(t) { 5 } else { 4 };
    for &first in &alpha {
        let alpha = alpha.clone();
        v.push(unit(format!("extend/{first}"), move |rec| {
            // Every sequence of angles up to the depth that begins with `first`.
            let mut stack: Vec<Vec<i32>> = vec![vec![first]];
            let mut s = CircleSector::new();
            while let Some(seq) = stack.pop() {
                rec.tick();
                rec.states += 1;
                rec.guard(|| format!("{seq:?}"), |rec| {
                    build(&seq, &mut s);
                    for &a in &seq {
                        rec.check(s.is_enclosed(a) && arc_has(s.start as i64, s.end as i64, a as i64), P, || format!("sector [{}, {}] built from {seq:?} does not contain {a}", s.start, s.end));
                    }
                    for &a in &alpha {
                        rec.check(s.is_enclosed(a) == arc_has(s.start as i64, s.end as i64, a as i64), P, || format!("sector [{}, {}]: is_enclosed({a}) is {}", s.start, s.end, s.is_enclosed(a)));
                        rec.transitions += 1;
                    }
                    // One angle only: nothing else is inside.
                    if seq.iter().all(|&a| a == seq[0]) {
                        for &a in &alpha {
                            rec.check(a == seq[0] || !s.is_enclosed(a), P, || format!("sector built from {seq:?} contains {a}"));
                        }
                    }
                    rec.traces += 1;
                });
                if rec.stop() {
                    return;
                }
                if seq.len() < depth {
                    for &a in &alpha {
                        let mut q = seq.clone();
                        q.push(a);
                        stack.push(q);
                    }
                }
            }
            rec.sample(|| format!("all sequences over {alpha:?} of length up to {depth} from {first}"));
        }));
    }
    for &x in &alpha {
        let alpha = alpha.clone();
        v.push(unit(format!("overlap/{x}"), move |rec| {
            for &y in &alpha {
                for &p in &alpha {
                    for &q in &alpha {
                        rec.states += 1;
                        rec.transitions += 2;
                        rec.guard(|| format!("{x} {y} {p} {q}"), |rec| {
                            let (mut a, mut b) = (CircleSector::new(), CircleSector::new());
                            a.from_angle(x);
                            a.end = y;
                            b.from_angle(p);
                            b.end = q;
                            let want = arcs_meet(x as i64, y as i64, p as i64, q as i64);
                            rec.check(a.overlaps(&b) == want && b.overlaps(&a) == want, P, || format!("sectors [{x}, {y}] and [{p}, {q}]: overlaps {} / {}, should be {want}", a.overlaps(&b), b.overlaps(&a)));
                            rec.traces += 1;
                        });
                        if rec.stop() {
                            return;
                        }
                    }
                }
            }
            rec.sample(|| format!("all pairs of sectors starting at {x} over {alpha:?}"));
        }));
        // Sectors built from two routes, overlap by shared angles.
        let alpha2 = vec![0, 1, 16384, 32768, 49152, 65535];
        let x = x;
        if alpha2.contains(&x) {
            v.push(unit(format!("routes/{x}"), move |rec| {
                let mut routes: Vec<Vec<i32>> = vec![];
                for &a in &alpha2 {
                    routes.push(vec![a]);
                    for &b in &alpha2 {
                        routes.push(vec![a, b]);
                        for &c in &alpha2 {
                            routes.push(vec![a, b, c]);
                        }
                    }
                }
                let (mut a, mut b) = (CircleSector::new(), CircleSector::new());
                for r1 in routes.iter().filter(|r| r[0] == x) {
                    for r2 in &routes {
                        rec.states += 1;
                        rec.transitions += (r1.len() + r2.len()) as u64;
                        rec.guard(|| format!("{r1:?} {r2:?}"), |rec| {
                            build(r1, &mut a);
                            build(r2, &mut b);
                            let want = arcs_meet(a.start as i64, a.end as i64, b.start as i64, b.end as i64);
                            rec.check(a.overlaps(&b) == want, P, || format!("routes with angles {r1:?} and {r2:?}: sectors [{}, {}] [{}, {}] overlaps={}", a.start, a.end, b.start, b.end, a.overlaps(&b)));
                            if r1.iter().any(|p| r2.contains(p)) {
                                rec.check(a.overlaps(&b), P, || format!("routes with angles {r1:?} and {r2:?} share a direction but their sectors do not overlap"));
                            }
                            rec.traces += 1;
                        });
                        if rec.stop() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    v.push(unit("angles", |rec| {
        let mut insts: Vec<Inst> = family(9);
        for k in 0..4 {
            insts.push(large(230, k));
        }
        let vals = [-7.0, -2.5, -1.0, -1e-5, 0.0, 1e-5, 1.0, 3.0, 1e6];
        for &x in &vals {
            for &y in &vals {
                insts.push(Inst { name: "dir".into(), xy: vec![(2.0, -3.0), (2.0 + x, -3.0 + y), (2.0 - x, -3.0 + y)], dem: vec![0.0; 3], cap: 1.0, rounded: false, size_limit: 10, lower: None });
            }
        }
        for inst in insts {
            rec.guard(|| inst.describe(), |rec| {
                let ctx = inst.ctx();
                for c in 1..=inst.n() {
                    let g = ctx.problem.get_angle(c);
                    rec.check(angle_ok(&inst, c, g as i64), P, || format!("angle of {:?} seen from {:?} is {g}", inst.xy[c], inst.xy[0]));
                    rec.states += 1;
                    rec.transitions += 1;
                    rec.traces += 1;
                }
            });
        }
        rec.sample(|| "directions over a grid around the depot".into());
    }));
    v
}
