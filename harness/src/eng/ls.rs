//! Whole local search runs: from every start, under many choice streams, checked for local optimality.
use super::*;
use crate::core::{unit, Unit};
use crate::hash;
use crate::inst::{family, large, Inst, Lcg};
use crate::oracle::{self, Policy};
use crate::refm::{self, At, Mv};
use hybridcvrp::config::Config;
use hybridcvrp::solver::improvement::LocalSearch;

pub static ENGINE: Engine = Engine { name: "ls", tags: &["C11", "C05", "C23"], units };
const P: &[&str] = &["C11"];

/// Which moves are enabled.
#[derive(Clone, Debug)]
pub struct Toggles {
    pub name: String,
    pub moves: Vec<Mv>,
    pub star: bool,
}

impl Toggles {
    fn set(&self, c: &mut Config) {
        let on = |m: Mv| self.moves.contains(&m);
        c.relocate_single = on(Mv::RelocateSingle);
        c.relocate_double = on(Mv::RelocateDouble);
        c.relocate_double_reverse = on(Mv::RelocateDoubleReverse);
        c.swap_one_with_one = on(Mv::SwapOneWithOne);
        c.swap_two_with_one = on(Mv::SwapTwoWithOne);
        c.swap_two_with_two = on(Mv::SwapTwoWithTwo);
        c.two_opt_intra_reverse = on(Mv::TwoOptIntraReverse);
        c.two_opt_inter_reverse = on(Mv::TwoOptInterReverse);
        c.two_opt_inter = on(Mv::TwoOptInter);
        c.swap_star = self.star;
    }
}

fn toggles() -> Vec<Toggles> {
    let def: Vec<Mv> = refm::NEIGHBOR.iter().cloned().filter(|m| *m != Mv::RelocateDoubleReverse).collect();
    let mut v = vec![
        Toggles { name: "default".into(), moves: def.clone(), star: true },
        Toggles { name: "all".into(), moves: refm::NEIGHBOR.to_vec(), star: true },
        Toggles { name: "nostar".into(), moves: def, star: false },
        Toggles { name: "staronly".into(), moves: vec![], star: true },
    ];
    for m in refm::NEIGHBOR {
        v.push(Toggles { name: format!("only_{m:?}"), moves: vec![m], star: false });
    }
    v
}

pub struct Run {
    pub inst: Inst,
    pub ctx: Box<Context>,
    pub ls: LocalSearch,
    pub tg: Toggles,
    pub gran: usize,
    pub rows: Vec<Vec<usize>>,
}

impl Run {
    fn new(inst: &Inst, k: usize, tg: &Toggles, gran: usize) -> Self {
        let ctx = inst.ctx_k(k, 1.0, |c| {
            tg.set(c);
            c.local_search_granularity = gran as u64;
        });
        let ls = LocalSearch::new(&ctx, 1.0);
        let n = inst.n();
        let rows = (0..=n).map(|i| ctx.matrix_provider.correlation.get(i).to_vec()).collect();
        Run { inst: inst.clone(), ctx, ls, tg: tg.clone(), gran, rows }
    }

    /// One run from `s`; the choice policy is already installed.
    fn go(&mut self, rec: &mut Rec, s: &Sol, pen: f64, mult: f64, label: &dyn Fn() -> String) {
        let n = self.inst.n();
        self.ctx.config.borrow_mut().penalty_capacity = pen;
        let mut i = ind(&self.ctx, s);
        rec.traces += 1;
        self.ls.run(&self.ctx, &mut i, mult);
        rec.transitions += self.ls.move_count.max(0) as u64 + 1;
        let (inst, tg, gran) = (&self.inst, &self.tg, self.gran);
        let what = || format!("local search from {s:?} penalty {pen} x {mult}, moves {} granularity {gran}, {}, {}", tg.name, label(), inst.describe());
        if !consistent(rec, inst, &i, pen, P, &what) {
            return;
        }
        rec.check(i.phenotype.len() == s.len(), P, || format!("{} routes: {}", i.phenotype.len(), what()));
        let lp = pen * mult;
        let (c0, c1) = (refm::cost(inst, s, lp), refm::cost(inst, &i.phenotype, lp));
        rec.check(c1 <= c0 + 1e-5 + 1e-9 * c0, P, || format!("cost grew from {c0} to {c1}, giving {:?}: {}", i.phenotype, what()));
        let t = &i.phenotype;
        let tol = -(2e-6 + 1e-9 * c1);
        let mut at = vec![(0usize, 0usize); n + 1];
        for (r, route) in t.iter().enumerate() {
            for (p, &c) in route.iter().enumerate() {
                at[c] = (r, p);
            }
        }
        let empty = t.iter().position(|r| r.is_empty());
        let mut norm = (nonempty(s), nonempty(t));
        norm.0.sort();
        norm.1.sort();
        let changed = norm.0 != norm.1 && c1 < c0 - 1e-5;
        for u in 1..=n {
            let row = &self.rows[u];
            for &v in &row[..gran.min(row.len())] {
                for &m in &tg.moves {
                    if let Some(x) = refm::apply(t, m, u, At::Cust(v)) {
                        let d = refm::delta(inst, t, &x, lp);
                        rec.check(d >= tol, P, || format!("returned {t:?}, where {m:?} of {u} and its neighbour {v} would improve by {d}: {}", what()));
                    }
                }
                if at[v].1 == 0 {
                    for m in refm::DEPOT.iter().cloned().filter(|m| tg.moves.contains(m)) {
                        if let Some(x) = refm::apply(t, m, u, At::Start(at[v].0)) {
                            let d = refm::delta(inst, t, &x, lp);
                            rec.check(d >= tol, P, || format!("returned {t:?}, where {m:?} of {u} to the start of the route of its neighbour {v} would improve by {d}: {}", what()));
                        }
                    }
                }
            }
            if let (Some(e), true) = (empty, changed) {
                for m in refm::EMPTY.iter().cloned().filter(|m| tg.moves.contains(m)) {
                    if let Some(x) = refm::apply(t, m, u, At::Start(e)) {
                        let d = refm::delta(inst, t, &x, lp);
                        rec.check(d >= tol, P, || format!("returned {t:?} after improving, where {m:?} of {u} to an empty route would improve by {d}: {}", what()));
                    }
                }
            }
        }
        if tg.star && inst.metric() {
            if let Some(l) = super::moves::lists(&self.ls) {
                for a in 0..l.len() {
                    for b in a + 1..l.len() {
                        if l[a].is_empty() || l[b].is_empty() {
                            continue;
                        }
                        let (x, y) = (&self.ls.routes[a].sector, &self.ls.routes[b].sector);
                        if refm::arcs_meet(x.start as i64, x.end as i64, y.start as i64, y.end as i64) {
                            let d = refm::best_swap_star(inst, &l[a], &l[b], lp);
                            rec.check(d >= -1e-5, P, || format!("returned {l:?}, where an exchange between routes {a} and {b} would improve by {d}: {}", what()));
                        }
                    }
                }
            }
        }
        // Neighbour lists keep their members.
        for (x, row) in self.rows.iter().enumerate() {
            let mut a = self.ls.correlation.get(x).to_vec();
            let mut b = row.clone();
            a.sort();
            b.sort();
            rec.check(a == b, &["C05"], || format!("the list of {x} was {row:?} and is {:?} after {}", self.ls.correlation.get(x), what()));
            let g = gran.min(row.len());
            let mut a = self.ls.correlation.get(x)[..g].to_vec();
            let mut b = row[..g].to_vec();
            a.sort();
            b.sort();
            rec.check(a == b, &["C05"], || format!("the first {g} of the list of {x} were {row:?} and are {:?} after {}", self.ls.correlation.get(x), what()));
        }
    }
}

fn policies(t: Tier) -> Vec<Policy> {
    let mut v = vec![Policy::First, Policy::Last];
    for s in 0..if thorough(t) { 12 } else { 3 } {
        v.push(Policy::Stream(s));
    }
    v
}

fn units(t: Tier) -> Vec<Unit> {
    let mut v = vec![];
    let mut sizes: Vec<(usize, usize)> = vec![(1, 1), (1, 3), (2, 1), (2, 3), (3, 2), (3, 3), (4, 3), (5, 3)];
    if thorough(t) {
        sizes.extend([(5, 4), (6, 3)]);
    }
    for (n, k) in sizes {
        for inst in family(n) {
            for tg in toggles() {
                let main = tg.name == "default" || tg.name == "all" || tg.name == "nostar";
                if n >= 5 && !main && !thorough(t) {
                    continue;
                }
                for gran in if n >= 3 { vec![1usize, 2, 20] } else { vec![20] } {
                    if gran != 20 && !main {
                        continue;
                    }
                    let inst = inst.clone();
                    let tg = tg.clone();
                    v.push(unit(format!("starts/n{n}/k{k}/{}/{}/g{gran}", inst.name, tg.name), move |rec| {
                        let mut run = Run::new(&inst, k, &tg, gran);
                        let pols = policies(rec.tier);
                        let mut sols = refm::canonical_solutions(n, k);
                        if n <= 3 {
                            sols = refm::solutions(n, k);
                        }
                        for s in &sols {
                            rec.states += 1;
                            for (pen, mult) in [(0.3, 1.0), (6.0, 1.0), (5.0, 10.0)] {
                                if mult == 10.0 && gran != 20 {
                                    continue;
                                }
                                for &pol in &pols {
                                    oracle::install(vec![], pol, &oracle::REALS, 0);
                                    hash::salt(3);
                                    rec.guard(|| format!("{s:?} {pol:?} {}", inst.describe()), |rec| run.go(rec, s, pen, mult, &|| format!("{pol:?}")));
                                    if rec.stop() {
                                        oracle::clear();
                                        return;
                                    }
                                }
                            }
                        }
                        oracle::clear();
                        rec.sample(|| format!("{} starts of {}, moves {}", sols.len(), inst.describe(), tg.name));
                    }));
                }
            }
        }
    }
    // Every single deviation from a default choice sequence.
    for inst in family(4) {
        for pol in [Policy::First, Policy::Stream(9)] {
            let inst = inst.clone();
            v.push(unit(format!("choices/{}/{pol:?}", inst.name), move |rec| {
                let tg = &toggles()[0];
                let mut run = Run::new(&inst, 3, tg, 20);
                let (horizon, devs) = if thorough(rec.tier) { (60, 2) } else { (40, 1) };
                let sols = refm::canonical_solutions(4, 3);
                for s in &sols {
                    rec.states += 1;
                    oracle::explore(pol, &oracle::REALS, horizon, Some(devs), 20_000, |_| {
                        // A fresh object: the executions of one exploration must not depend on each other.
                        let label = || "deviating choices".to_string();
                        run.ls.customers.sort();
                        rec.guard(|| format!("{s:?} {}", inst.describe()), |rec| run.go(rec, s, 6.0, 1.0, &label));
                        !rec.stop()
                    });
                    if rec.stop() {
                        return;
                    }
                }
                rec.sample(|| format!("every {devs} deviations within {horizon} choices from each of {} starts", sols.len()));
            }));
        }
    }
    for n in [8usize, 12, 21, 22, 25, 60, 210] {
        for kind in 0..4 {
            v.push(unit(format!("large/n{n}/k{kind}"), move |rec| {
                let inst = large(n, kind);
                let total: f64 = inst.dem.iter().sum();
                let slots = (1.2 * (total / inst.cap).ceil() + 2.0).ceil() as usize;
                let mut r = Lcg(17 + (n * 4 + kind) as u64);
                let reps = match (n, thorough(rec.tier)) {
                    (0..=12, false) => 40,
                    (0..=30, false) => 10,
                    (_, false) => 2,
                    (0..=30, true) => 300,
                    (_, true) => 20,
                };
                for tg in toggles().iter().take(3) {
                    for gran in [3usize, 20, 50, 300] {
                        if (gran == 300 && n > 100) || (gran == 50 && n < 60) {
                            continue;
                        }
                        let mut run = Run::new(&inst, slots, tg, gran);
                        for rep in 0..reps {
                            let mut s: Sol = vec![vec![]; slots];
                            let mut tour: Vec<usize> = (1..=n).collect();
                            for i in (1..n).rev() {
                                tour.swap(i, r.below(i + 1));
                            }
                            for (i, c) in tour.into_iter().enumerate() {
                                let x = match rep % 3 {
                                    0 => r.below(slots),
                                    1 => i * (slots - 1) / n,
                                    _ => i * 2 / n,
                                };
                                s[x].push(c);
                            }
                            rec.states += 1;
                            oracle::install(vec![], Policy::Stream(rep as u64), &oracle::REALS, 0);
                            hash::salt(3);
                            let (pen, mult) = [(0.05, 1.0), (20.0, 1.0), (10.0, 10.0)][rep % 3];
                            rec.guard(|| format!("{s:?} {}", inst.name), |rec| run.go(rec, &s, pen, mult, &|| format!("stream {rep}")));
                            if rec.stop() {
                                oracle::clear();
                                return;
                            }
                        }
                        oracle::clear();
                    }
                }
            }));
        }
    }
    v
}
