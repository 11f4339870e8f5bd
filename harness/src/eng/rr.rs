//! Ruin, recreate, the annealing search around them and its schedules.
use super::*;
use crate::clock;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst, Lcg};
use crate::oracle::{self, Policy};
use crate::refm;
use hybridcvrp::solver::improvement::{Acceptance, AdjacentStringRemoval, GreedyBlink, IterationSchedule, Recreate, Ruin, RuinRecreate, RuinRecreateSolution, TemperatureAcceptance, TimeSchedule};
use hybridcvrp::solver::SearchHistory;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;
use std::time::Duration;

pub static ENGINE: Engine = Engine { name: "rr", tags: &["C14", "C15", "C19", "C23"], units };
const P: &[&str] = &["C14"];
const S: &[&str] = &["C15"];
const R: &[&str] = &["C15"];

fn routes_of(s: &RuinRecreateSolution) -> Sol {
    s.routes.iter().map(|r| r.nodes.clone()).collect()
}

/// Tracked distance and overload of every route against a recomputation.
fn tracked(rec: &mut Rec, inst: &Inst, s: &RuinRecreateSolution, props: &[&str], what: &dyn Fn() -> String) {
    for (i, r) in s.routes.iter().enumerate() {
        let d = refm::route_dist(inst, &r.nodes);
        let o = refm::load(inst, &r.nodes) - inst.cap;
        rec.check(refm::close(r.distance, d) && refm::close(r.overload, o), props, || format!("route {i} {:?} tracked with distance {} overload {}, but these are {d} and {o}: {}", r.nodes, r.distance, r.overload, what()));
    }
}

/// Cost and customer locations too.
fn tracked_all(rec: &mut Rec, inst: &Inst, s: &RuinRecreateSolution, pen: f64, props: &[&str], what: &dyn Fn() -> String) {
    tracked(rec, inst, s, props, what);
    let c = refm::cost(inst, &routes_of(s), pen);
    rec.check(refm::close(c, s.cost), props, || format!("tracked cost {} of {:?}, which costs {c}: {}", s.cost, routes_of(s), what()));
    for (i, r) in s.routes.iter().enumerate() {
        for (p, &c) in r.nodes.iter().enumerate() {
            let l = &s.locations[c];
            rec.check(l.route_index == i && l.node_index == p, props, || format!("customer {c} is at {i}/{p} of {:?} but tracked at {}/{}: {}", routes_of(s), l.route_index, l.node_index, what()));
        }
    }
}

fn subsequence(a: &[usize], b: &[usize]) -> bool {
    let mut it = b.iter();
    a.iter().all(|x| it.any(|y| x == y))
}

/// What a ruin step may do.
fn judge_ruin(rec: &mut Rec, inst: &Inst, before: &Sol, s: &RuinRecreateSolution, lmax: usize, what: &dyn Fn() -> String) {
    let after = routes_of(s);
    let n = inst.n();
    let mut gone = vec![];
    let mut changed = BTreeSet::new();
    for (i, (b, a)) in before.iter().zip(&after).enumerate() {
        rec.check(subsequence(a, b), P, || format!("ruin turned route {b:?} into {a:?}: {}", what()));
        let lost: Vec<usize> = b.iter().filter(|c| !a.contains(c)).cloned().collect();
        rec.check(lost.len() <= lmax, P, || format!("ruin removed {lost:?} from one route, more than {lmax}: {}", what()));
        if !lost.is_empty() {
            changed.insert(i);
        }
        gone.extend(lost);
    }
    let mut un = s.unassigned.clone();
    un.sort();
    gone.sort();
    rec.check(un == gone, P, || format!("removed {gone:?} but {:?} are listed as unassigned: {}", s.unassigned, what()));
    rec.check(n < 2 || !gone.is_empty(), P, || format!("ruin removed nobody: {}", what()));
    let ruined: BTreeSet<usize> = s.ruined_routes.iter().cloned().collect();
    rec.check(ruined == changed, P, || format!("changed routes {changed:?} but {ruined:?} are listed: {}", what()));
    tracked(rec, inst, s, P, what);
}

/// Is `target` reachable by inserting the customers one after the other, each at the cheapest allowed place?
fn reachable(inst: &Inst, cur: &mut Sol, rest: &mut Vec<usize>, upd: &mut BTreeSet<usize>, target: &Sol, pen: f64) -> bool {
    if rest.is_empty() {
        return cur == target;
    }
    for k in 0..rest.len() {
        let c = rest.remove(k);
        let mut cand: Vec<(f64, usize, usize)> = vec![];
        for &r in upd.iter() {
            if refm::load(inst, &cur[r]) + inst.dem[c] <= inst.cap + refm::EPS {
                for p in 0..=cur[r].len() {
                    cand.push((ins(inst, &cur[r], p, c), r, p));
                }
            }
        }
        if cand.is_empty() {
            for r in 0..cur.len() {
                let over = (refm::load(inst, &cur[r]) + inst.dem[c] - inst.cap).max(0.0) * pen;
                for p in 0..=cur[r].len() {
                    cand.push((ins(inst, &cur[r], p, c) + over, r, p));
                }
            }
        }
        let min = cand.iter().map(|x| x.0).fold(f64::INFINITY, f64::min);
        for (d, r, p) in cand {
            if d > min + 1e-5 {
                continue;
            }
            cur[r].insert(p, c);
            if subsequence(&cur[r], &target[r]) {
                let new = upd.insert(r);
                if reachable(inst, cur, rest, upd, target, pen) {
                    return true;
                }
                if new {
                    upd.remove(&r);
                }
            }
            cur[r].remove(p);
        }
        rest.insert(k, c);
    }
    false
}

fn ins(i: &Inst, r: &[usize], p: usize, c: usize) -> f64 {
    let a = if p == 0 { 0 } else { r[p - 1] };
    let b = if p == r.len() { 0 } else { r[p] };
    let base = if a == b { 0.0 } else { i.d(a, b) };
    i.d(a, c) + i.d(c, b) - base
}

fn judge_recreate(rec: &mut Rec, inst: &Inst, before: &Sol, un: &[usize], ruined: &BTreeSet<usize>, s: &RuinRecreateSolution, pen: f64, what: &dyn Fn() -> String) {
    let after = routes_of(s);
    rec.check(s.unassigned.is_empty() && s.ruined_routes.is_empty(), P, || format!("after recreate unassigned {:?} and changed routes {:?} remain: {}", s.unassigned, s.ruined_routes, what()));
    if !rec.check(refm::complete(inst.n(), &after), P, || format!("recreate gave {after:?}: {}", what())) {
        return;
    }
    tracked_all(rec, inst, s, pen, P, what);
    if un.len() <= 6 {
        let ok = reachable(inst, &mut before.clone(), &mut un.to_vec(), &mut ruined.clone(), &after, pen);
        rec.check(ok, P, || format!("recreate put {un:?} back into {before:?} (changed routes {ruined:?}) as {after:?}, which no order of cheapest insertions gives: {}", what()));
    }
}

fn loaded(ctx: &Context, s: &Sol) -> RuinRecreateSolution {
    let i = ind(ctx, s);
    let mut x = RuinRecreateSolution::new(ctx);
    x.load(&i);
    let all: Vec<usize> = (0..s.len()).collect();
    x.evaluate(ctx, all.iter());
    x
}

/// Probability of every outcome of `run`, over all draws.
fn distribution<T: Ord>(reals: &[f64], horizon: usize, max: u64, mut run: impl FnMut() -> T) -> Option<std::collections::BTreeMap<T, f64>> {
    let mut seen = std::collections::BTreeMap::new();
    let (_, all) = oracle::explore(Policy::First, reals, horizon, None, max, |st| {
        let x = run();
        let w: f64 = st.borrow().trace.iter().map(|c| 1.0 / c.n as f64).product();
        *seen.entry(x).or_insert(0.0) += w;
        true
    });
    all.then_some(seen)
}

/// Routes up to their direction and order.
fn mirrored(s: &Sol) -> Sol {
    let mut v: Sol = s
        .iter()
        .map(|r| {
            let b: Vec<usize> = r.iter().rev().cloned().collect();
            r.clone().min(b)
        })
        .collect();
    v.sort();
    v
}

/// What cheapest insertion in this order gives, up to mirrored routes; nothing if ties lead elsewhere.
fn in_order(inst: &Inst, before: &Sol, order: &[usize], ruined: &BTreeSet<usize>, pen: f64) -> Option<Sol> {
    let Some(&c) = order.first() else { return Some(mirrored(before)) };
    let mut cand: Vec<(f64, usize, usize)> = vec![];
    for &r in ruined {
        if refm::load(inst, &before[r]) + inst.dem[c] <= inst.cap + refm::EPS {
            cand.extend((0..=before[r].len()).map(|p| (ins(inst, &before[r], p, c), r, p)));
        }
    }
    if cand.is_empty() {
        for (r, route) in before.iter().enumerate() {
            let over = (refm::load(inst, route) + inst.dem[c] - inst.cap).max(0.0) * pen;
            cand.extend((0..=route.len()).map(|p| (ins(inst, route, p, c) + over, r, p)));
        }
    }
    let min = cand.iter().map(|x| x.0).fold(f64::INFINITY, f64::min);
    let mut found: Option<Sol> = None;
    for (d, r, p) in cand {
        if d - min > 1e-3 {
            continue;
        }
        let (mut cur, mut upd) = (before.clone(), ruined.clone());
        cur[r].insert(p, c);
        upd.insert(r);
        let x = in_order(inst, &cur, &order[1..], &upd, pen)?;
        if found.as_ref().is_some_and(|f| *f != x) {
            return None;
        }
        found = Some(x);
    }
    found
}

const FEW: [f64; 4] = [0.0, 0.34, 0.67, 0.999999];

// --- search ------------------------------------------------------------------------------------

#[derive(Default)]
struct Log {
    /// (base routes, base cost field, penalty, u of the previous acceptance, draws between)
    base: Vec<(Sol, f64, f64, f64, u64)>,
    cand: Vec<(Sol, f64)>,
    cand_draws: u64,
    bad: Vec<String>,
}

struct SpyRuin {
    inner: AdjacentStringRemoval,
    log: Rc<RefCell<Log>>,
}
impl Ruin for SpyRuin {
    fn run(&self, ctx: &Context, s: &mut RuinRecreateSolution) {
        {
            let mut l = self.log.borrow_mut();
            let between = oracle::draws() - l.cand_draws;
            l.base.push((routes_of(s), s.cost, ctx.config.borrow().penalty_capacity, oracle::last_real(), between));
            if !s.unassigned.is_empty() || !s.ruined_routes.is_empty() {
                l.bad.push(format!("a step starts with unassigned {:?} and changed routes {:?}", s.unassigned, s.ruined_routes));
            }
        }
        self.inner.run(ctx, s)
    }
}
struct SpyRecreate {
    inner: GreedyBlink,
    log: Rc<RefCell<Log>>,
}
impl Recreate for SpyRecreate {
    fn run(&self, ctx: &Context, s: &mut RuinRecreateSolution) {
        self.inner.run(ctx, s);
        let mut l = self.log.borrow_mut();
        l.cand.push((routes_of(s), s.cost));
        l.cand_draws = oracle::draws();
    }
}

pub fn temperature(t0: f64, t: f64) -> f64 {
    t0 * ((-2.0 * t).exp() - t * (-2.0f64).exp())
}

struct Search<'a> {
    inst: &'a Inst,
    ctx: &'a Context,
    rr: RuinRecreate,
    log: Rc<RefCell<Log>>,
}

impl<'a> Search<'a> {
    fn new(inst: &'a Inst, ctx: &'a Context) -> Self {
        let mut rr = RuinRecreate::new(ctx);
        let log = Rc::new(RefCell::new(Log::default()));
        rr.ruin = Box::new(SpyRuin { inner: AdjacentStringRemoval::new(ctx), log: log.clone() });
        rr.recreate = Box::new(SpyRecreate { inner: GreedyBlink::default(), log: log.clone() });
        Search { inst, ctx, rr, log }
    }

    /// One complete search from `s` with the schedule already set (start temperature t0, n steps).
    fn go(&mut self, rec: &mut Rec, s: &Sol, t0: f64, steps: usize, what: &dyn Fn() -> String) {
        let (inst, ctx) = (self.inst, self.ctx);
        *self.log.borrow_mut() = Log { cand_draws: oracle::draws(), ..Log::default() };
        let pen0 = ctx.config.borrow().penalty_capacity;
        let (inc, dec) = {
            let c = ctx.config.borrow();
            (c.penalty_inc_multiplier, c.penalty_dec_multiplier)
        };
        let mut start = ind(ctx, s);
        rec.traces += 1;
        // Sometimes the run has recorded something already.
        let recorded = if steps % 2 == 0 && inst.n() <= 6 { refm::canonical_solutions(inst.n(), 3).into_iter().find(|x| refm::eval(inst, x, pen0).feasible) } else { None };
        {
            let mut h = ctx.search_history.borrow_mut();
            *h = SearchHistory::new(h.start_time);
            if let Some(x) = &recorded {
                h.best_cost = refm::cost(inst, x, pen0);
            }
        }
        let mut record = ctx.search_history.borrow().best_cost;
        self.rr.load(ctx, &mut start);
        while !self.rr.complete() {
            self.rr.search();
            rec.tick();
        }
        let last_u = oracle::last_real();
        let last_between = oracle::draws() - self.log.borrow().cand_draws;
        let pen1 = ctx.config.borrow().penalty_capacity;
        let mut out = ind(ctx, s);
        self.rr.get_best_solution(&mut out);
        let l = self.log.borrow();
        rec.transitions += l.cand.len() as u64;
        for b in &l.bad {
            rec.fail(P, || format!("{b}: {}", what()));
        }
        rec.check(l.cand.len() == steps, S, || format!("{} steps instead of {steps}: {}", l.cand.len(), what()));
        let cost = |x: &Sol, p: f64| refm::cost(inst, x, p);
        let mut best = s.clone();
        let mut pens = vec![pen0];
        let mut ties = false;
        let mut cur = s.clone();
        for k in 0..l.cand.len() {
            let (base, bc, pen, _, _) = &l.base[k];
            let (cand, cc) = &l.cand[k];
            // The step starts from the current solution.
            if !rec.check(base == &cur, S, || format!("step {k} starts from {base:?} and the current solution is {cur:?}: {}", what())) {
                return;
            }
            rec.check(k == 0 || refm::close(*bc, cost(base, *pen)), if *pen == pen0 && !self.rr.update_penalty { P } else { &["C19"] }, || format!("step {k} starts with tracked cost {bc} of {base:?}, which costs {} under penalty {pen}: {}", cost(base, *pen), what()));
            rec.check(refm::close(*cc, cost(cand, *pen)), P, || format!("step {k}: candidate {cand:?} tracked with {cc} but costs {}: {}", cost(cand, *pen), what()));
            if *pen != *pens.last().unwrap() {
                let prev = *pens.last().unwrap();
                // The current solution decides the direction.
                let feas = refm::eval(inst, base, *pen).feasible;
                let want = prev * if feas { dec } else { inc };
                rec.check(self.rr.update_penalty, &["C19"], || format!("the penalty moved from {prev} to {pen} outside elite education: {}", what()));
                rec.check(refm::close(*pen, want) && (pen / want - 1.0).abs() < 1e-9, &["C19"], || format!("the penalty moved from {prev} to {pen} while the current solution {base:?} was feasible={feas}: {}", what()));
                pens.push(*pen);
            }
            // Acceptance.
            let temp = temperature(t0, k as f64 / steps as f64);
            let (u, between) = if k + 1 < l.base.len() { (l.base[k + 1].3, l.base[k + 1].4) } else { (last_u, last_between) };
            let (c_new, c_old) = (cost(cand, *pen), cost(base, *pen));
            let next: Option<&Sol> = if k + 1 < l.base.len() { Some(&l.base[k + 1].0) } else { None };
            let bound = c_old - temp * u.ln();
            let should = if between == 0 { Some(c_new < c_old) } else if (c_new - bound).abs() < 1e-5 || bound.is_nan() { None } else { Some(c_new < bound) };
            let did = match next {
                Some(x) if cand == base => {
                    rec.check(x == cand, S, || format!("after step {k} from {base:?} to itself the search goes on from {x:?}: {}", what()));
                    should.unwrap_or(true)
                }
                Some(x) => {
                    rec.check(x == cand || x == base, S, || format!("after step {k} from {base:?} to {cand:?} the search goes on from {x:?}: {}", what()));
                    x == cand
                }
                None => routes_of(&self.rr.solution) == *cand,
            };
            if let Some(sh) = should {
                if cand != base {
                    rec.check(sh == did, S, || format!("step {k}: candidate cost {c_new}, current cost {c_old}, temperature {temp}, u {u}: accepted={did}: {}", what()));
                }
            }
            if did {
                cur = cand.clone();
                // Best under the penalty of this moment.
                if (cost(&cur, *pen) - cost(&best, *pen)).abs() < 1e-5 && refm::eval(inst, &cur, 0.0).over != refm::eval(inst, &best, 0.0).over {
                    ties = true;
                }
                if cost(&cur, *pen) < cost(&best, *pen) - 1e-6 {
                    best = cur.clone();
                    // A feasible one is recorded.
                    if refm::eval(inst, &cur, *pen).feasible && cost(&cur, *pen) < record - 1e-5 {
                        record = cost(&cur, *pen);
                    }
                }
            }
        }
        rec.check(routes_of(&self.rr.solution) == cur, S, || format!("the search ends with {:?} and not with {cur:?}: {}", routes_of(&self.rr.solution), what()));
        if !consistent(rec, inst, &out, pen1, S, what) {
            return;
        }
        {
            let h = ctx.search_history.borrow();
            let got = h.best_cost;
            rec.check(ties && pens.len() > 1 || got <= record + 2e-5, R, || format!("accepted a feasible best of cost {record} and recorded {got}: {}", what()));
            if let Some(e) = h.last_entry() {
                rec.check(refm::complete(inst.n(), &e.solution.routes) && refm::eval(inst, &e.solution.routes, 0.0).feasible && refm::close(refm::cost(inst, &e.solution.routes, 0.0), e.solution.cost), R, || format!("recorded {:?} with cost {}: {}", e.solution.routes, e.solution.cost, what()));
            }
        }
        let (c, b) = (cost(&out.phenotype, pen1), cost(&best, pen1));
        if self.rr.update_penalty {
            rec.check(refm::close(self.rr.best_cost(), c), &["C19"], || format!("the best is tracked with {} and costs {c} under the current penalty {pen1}: {}", self.rr.best_cost(), what()));
            rec.check(refm::close(self.rr.solution.cost, cost(&cur, pen1)), &["C19"], || format!("the current solution is tracked with {} and costs {}: {}", self.rr.solution.cost, cost(&cur, pen1), what()));
            if steps >= 2000 {
                rec.check(pens.len() > 1, &["C19"], || format!("the penalty never moved in {steps} steps of elite education: {}", what()));
            }
            // Candidates that cost the same now may not under another penalty.
            if pens.len() == 1 || !ties {
                rec.check((c - b).abs() <= 1e-5 + 1e-9 * b, S, || format!("handed back {:?} of cost {c}, the cheapest accepted is {best:?} of cost {b}: {}", out.phenotype, what()));
            }
        } else {
            rec.check((c - b).abs() <= 1e-5 + 1e-9 * b, S, || format!("handed back {:?} of cost {c}, the cheapest accepted is {best:?} of cost {b}: {}", out.phenotype, what()));
            rec.check(c <= cost(s, pen0) + 1e-5, S, || format!("handed back cost {c}, loaded {}: {}", cost(s, pen0), what()));
            rec.check(pen1 == pen0, &["C19"], || format!("the penalty moved from {pen0} to {pen1} outside elite education: {}", what()));
        }
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut v = vec![];
    let th = thorough(t);
    // Ruin and recreate steps on every solution.
    for (n, k) in [(1usize, 2usize), (2, 2), (3, 3), (4, 3), (5, 3)] {
        let steps = th || n < 5;
        for inst in family(n) {
            for (cavg, lmax) in [(10usize, 10usize), (1, 1), (2, 2)] {
                if !steps {
                    break;
                }
                let i = inst.clone();
                v.push(unit(format!("ruin/n{n}/{}/c{cavg}l{lmax}", i.name), move |rec| {
                    let ctx = i.ctx_k(k, 2.0, |c| {
                        c.average_ruin_cardinality = cavg;
                        c.max_ruin_string_length = lmax;
                    });
                    let ruin = AdjacentStringRemoval::new(&ctx);
                    let sols = if n <= 3 { refm::solutions(n, k) } else { refm::canonical_solutions(n, k) };
                    for s in &sols {
                        rec.states += 1;
                        let x = loaded(&ctx, s);
                        let devs = match (n, thorough(rec.tier)) {
                            (0..=2, _) => None,
                            (3, true) => Some(6),
                            (3, false) => Some(4),
                            (4, true) => Some(4),
                            _ => Some(2),
                        };
                        for pol in [Policy::First, Policy::Last] {
                            let (runs, _) = oracle::explore(pol, &FEW, 24, devs, 400_000, |_| {
                                let mut y = x.clone();
                                y.from(&x);
                                let what = || format!("ruin of {s:?} with average {cavg} and string length {lmax}, {}", i.describe());
                                rec.guard(what, |rec| {
                                    ruin.run(&ctx, &mut y);
                                    judge_ruin(rec, &i, s, &y, lmax, &what);
                                });
                                !rec.stop()
                            });
                            rec.transitions += runs;
                            rec.traces += runs;
                            if rec.stop() {
                                return;
                            }
                        }
                    }
                    rec.sample(|| format!("{} solutions of {}", sols.len(), i.describe()));
                }));
            }
            // Where a ruin starts: with one customer to go, it is the neighbour of the customer drawn.
            let i = inst.clone();
            v.push(unit(format!("centre/n{n}/{}", i.name), move |rec| {
                if n < 2 {
                    return;
                }
                let ctx = i.ctx_k(k, 2.0, |c| {
                    c.average_ruin_cardinality = 1;
                    c.max_ruin_string_length = 1;
                });
                let ruin = AdjacentStringRemoval::new(&ctx);
                let mut want = vec![0.0; n + 1];
                for c in 1..=n {
                    want[ctx.matrix_provider.correlation.get(c)[0]] += 1.0 / n as f64;
                }
                for s in refm::canonical_solutions(n, k) {
                    rec.tick();
                    rec.states += 1;
                    let x = loaded(&ctx, &s);
                    let what = || format!("ruin of one customer of {s:?}, {}", i.describe());
                    rec.guard(what, |rec| {
                        let got = distribution(&[0.0], 16, 20_000, || {
                            let mut y = x.clone();
                            y.from(&x);
                            ruin.run(&ctx, &mut y);
                            y.unassigned.clone()
                        });
                        let Some(got) = got else { return };
                        rec.transitions += got.len() as u64;
                        rec.check(got.keys().all(|u| u.len() == 1), P, || format!("a string of one customer removed {:?}: {}", got.keys().collect::<Vec<_>>(), what()));
                        for c in 1..=n {
                            let p = got.get(&vec![c]).cloned().unwrap_or(0.0);
                            rec.check((p - want[c]).abs() < 1e-9, P, || format!("customer {c} is removed with probability {p}, next to {} of all customers: {}", want[c], what()));
                        }
                    });
                    rec.traces += 1;
                    if rec.stop() {
                        return;
                    }
                }
            }));
            // How many strings, and how long.
            for (cavg, lmax) in [(2usize, 1usize), (1, 1), (1, 2), (1, 3), (1, 10)] {
                if !steps {
                    break;
                }
                let i = inst.clone();
                v.push(unit(format!("strings/n{n}/{}/c{cavg}l{lmax}", i.name), move |rec| {
                    let slots = if lmax == 1 { k } else { 2 };
                    let longest = ((n as f64 / slots as f64).round() as usize).min(lmax);
                    if n < 3 || longest < 1 {
                        return;
                    }
                    let ctx = i.ctx_k(slots, 2.0, |c| {
                        c.average_ruin_cardinality = cavg;
                        c.max_ruin_string_length = lmax;
                    });
                    let most = if lmax == 1 { 2 * cavg - 1 } else { 1 };
                    // The middles of equal parts, as many as there are outcomes or a multiple of that.
                    let parts = if lmax == 1 { most } else { 2 * longest };
                    let reals: Vec<f64> = (0..parts).map(|j| (j as f64 + 0.5) / parts as f64).collect();
                    let ruin = AdjacentStringRemoval::new(&ctx);
                    let mut judged = 0;
                    for s in refm::canonical_solutions(n, slots) {
                        // Routes that would need other parts.
                        if s.iter().any(|r| !r.is_empty() && parts % r.len().min(longest) != 0) {
                            continue;
                        }
                        judged += 1;
                        rec.tick();
                        rec.states += 1;
                        // (changed routes, removed customers), over the customers a ruin is drawn around.
                        let mut want = std::collections::BTreeMap::new();
                        for c in 1..=n {
                            if lmax == 1 {
                                let open = s.iter().filter(|r| r.iter().any(|&x| x != c)).count();
                                for ks in 1..=most {
                                    let m = ks.min(open);
                                    *want.entry((m, m)).or_insert(0.0) += 1.0 / (most * n) as f64;
                                }
                            } else {
                                let x = ctx.matrix_provider.correlation.get(c)[0];
                                let len = s.iter().find(|r| r.contains(&x)).unwrap().len().min(longest);
                                for l in 1..=len {
                                    *want.entry((1, l)).or_insert(0.0) += 1.0 / (len * n) as f64;
                                }
                            }
                        }
                        let x = loaded(&ctx, &s);
                        let what = || format!("ruin of {s:?} with average {cavg} and string length {lmax}, {}", i.describe());
                        rec.guard(what, |rec| {
                            let got = distribution(&reals, 40, 400_000, || {
                                let mut y = x.clone();
                                y.from(&x);
                                ruin.run(&ctx, &mut y);
                                (y.ruined_routes.len(), y.unassigned.len())
                            });
                            let Some(got) = got else {
                                judged -= 1;
                                return;
                            };
                            rec.transitions += got.len() as u64;
                            for z in want.keys().chain(got.keys()) {
                                let (p, q) = (got.get(z).cloned().unwrap_or(0.0), want.get(z).cloned().unwrap_or(0.0));
                                if !rec.check((p - q).abs() < 1e-9, P, || format!("{} strings and {} customers are removed with probability {p} instead of {q}: {}", z.0, z.1, what())) {
                                    return;
                                }
                            }
                        });
                        rec.traces += 1;
                        if rec.stop() {
                            return;
                        }
                    }
                    rec.sample(|| format!("{judged} solutions of {}", i.describe()));
                }));
            }
            // In which order removed customers return: at random (4 of 11), by demand (4), the farthest first (2) or last (1).
            let i = inst.clone();
            v.push(unit(format!("order/n{n}/{}", i.name), move |rec| {
                let pen = 2.0;
                let ctx = i.ctx_k(k, pen, |_| ());
                let re = GreedyBlink::default();
                let mut judged = 0u64;
                for s in refm::canonical_solutions(n, k) {
                    let x = loaded(&ctx, &s);
                    for mask in 0u32..1 << n {
                        let un: Vec<usize> = (1..=n).filter(|c| mask >> (c - 1) & 1 == 1).collect();
                        let distinct = |f: &dyn Fn(usize) -> f64| un.iter().all(|&a| un.iter().all(|&b| a == b || (f(a) - f(b)).abs() > 1e-3));
                        if un.len() < 2 || un.len() > 4 || !distinct(&|c| i.dem[c]) || !distinct(&|c| i.d(0, c)) {
                            continue;
                        }
                        rec.tick();
                        rec.states += 1;
                        let take = || {
                            let mut y = x.clone();
                            y.from(&x);
                            for r in 0..k {
                                for p in (0..y.routes[r].nodes.len()).rev() {
                                    let c = y.routes[r].nodes[p];
                                    if un.contains(&c) {
                                        y.routes[r].remove(p, &ctx);
                                        y.unassigned.push(c);
                                        y.ruined_routes.insert(r);
                                    }
                                }
                            }
                            y
                        };
                        let y = take();
                        let (before, ruined): (Sol, BTreeSet<usize>) = (routes_of(&y), y.ruined_routes.iter().cloned().collect());
                        let sorted_by = |f: &dyn Fn(usize) -> f64| {
                            let mut o = un.clone();
                            o.sort_by(|&a, &b| f(a).partial_cmp(&f(b)).unwrap());
                            o
                        };
                        let mut orders = vec![(4.0, sorted_by(&|c| -i.dem[c])), (2.0, sorted_by(&|c| -i.d(0, c))), (1.0, sorted_by(&|c| i.d(0, c)))];
                        let mut perms: Vec<Vec<usize>> = vec![];
                        refm::perms(un.len(), &mut |p| perms.push(p.iter().map(|&k| un[k - 1]).collect()));
                        let each = 4.0 / perms.len() as f64;
                        orders.extend(perms.into_iter().map(|p| (each, p)));
                        let mut want = std::collections::BTreeMap::new();
                        let mut clear = true;
                        for (w, o) in &orders {
                            match in_order(&i, &before, o, &ruined, pen) {
                                Some(z) => *want.entry(z).or_insert(0.0) += w / 11.0,
                                None => clear = false,
                            }
                        }
                        if !clear || want.len() < 2 {
                            continue;
                        }
                        judged += 1;
                        let what = || format!("return of {un:?} to {before:?} (changed routes {ruined:?}), {}", i.describe());
                        rec.guard(what, |rec| {
                            let got = distribution(&[0.0], 12, 50_000, || {
                                let mut y = take();
                                re.run(&ctx, &mut y);
                                mirrored(&routes_of(&y))
                            });
                            let Some(got) = got else { return };
                            rec.transitions += got.len() as u64;
                            for z in want.keys().chain(got.keys()) {
                                let (p, q) = (got.get(z).cloned().unwrap_or(0.0), want.get(z).cloned().unwrap_or(0.0));
                                if !rec.check((p - q).abs() < 1e-9, P, || format!("{z:?} comes out with probability {p}, the weights of the orders give {q}: {}", what())) {
                                    return;
                                }
                            }
                        });
                        rec.traces += 1;
                        if rec.stop() {
                            return;
                        }
                    }
                }
                rec.sample(|| format!("{judged} sets of removed customers whose order matters on {}", i.describe()));
            }));
            if !steps {
                continue;
            }
            let i = inst.clone();
            v.push(unit(format!("recreate/n{n}/{}", i.name), move |rec| {
                let ctx = i.ctx_k(k, 2.0, |_| ());
                let re = GreedyBlink::default();
                let sols = if n <= 3 { refm::solutions(n, k) } else { refm::canonical_solutions(n, k) };
                for s in &sols {
                    let x = loaded(&ctx, s);
                    for mask in 0u32..1 << n {
                        if mask.count_ones() > 4 {
                            continue;
                        }
                        rec.states += 1;
                        // Remove the chosen customers.
                        let mut y = x.clone();
                        for r in 0..k {
                            for p in (0..y.routes[r].nodes.len()).rev() {
                                let c = y.routes[r].nodes[p];
                                if mask >> (c - 1) & 1 == 1 {
                                    y.routes[r].remove(p, &ctx);
                                    y.unassigned.push(c);
                                    y.ruined_routes.insert(r);
                                }
                            }
                        }
                        let before = routes_of(&y);
                        let un = y.unassigned.clone();
                        let ruined: BTreeSet<usize> = y.ruined_routes.iter().cloned().collect();
                        for pen in [0.1, 2.0, 50.0] {
                            ctx.config.borrow_mut().penalty_capacity = pen;
                            let (runs, _) = oracle::explore(Policy::First, &FEW, 8, None, 10_000, |_| {
                                let mut z = y.clone();
                                let what = || format!("recreate of {un:?} into {before:?} penalty {pen}, {}", i.describe());
                                rec.guard(what, |rec| {
                                    re.run(&ctx, &mut z);
                                    judge_recreate(rec, &i, &before, &un, &ruined, &z, pen, &what);
                                });
                                !rec.stop()
                            });
                            rec.transitions += runs;
                            rec.traces += runs;
                            if rec.stop() {
                                return;
                            }
                        }
                    }
                }
                rec.sample(|| format!("every subset of at most 4 customers out of each of {} solutions of {}", sols.len(), i.describe()));
            }));
        }
    }
    // Ruin and recreate on larger solutions, chained.
    for n in [8usize, 12, 25, 60, 210, 330] {
        for kind in 0..4 {
            v.push(unit(format!("chain/n{n}/k{kind}"), move |rec| {
                let mut inst = large(n, kind);
                let extreme = n == 330;
                let mut r = Lcg(5 + (n * 4 + kind) as u64);
                for (cavg, lmax) in [(10usize, 10usize), (3, 2), (15, 4)] {
                    let total: f64 = inst.dem.iter().sum();
                    let mut slots = (1.2 * (total / inst.cap).ceil() + 2.0).ceil() as usize;
                    // Everything in one route, or every customer in one of its own.
                    if extreme {
                        slots = if kind % 2 == 0 { 2 } else { 340 };
                        inst.cap = if kind % 2 == 0 { total } else { inst.dem.iter().cloned().fold(0.0, f64::max) };
                    }
                    let pen = [0.2, 10.0][kind % 2];
                    let ctx = inst.ctx_k(slots, pen, |c| {
                        c.average_ruin_cardinality = cavg;
                        c.max_ruin_string_length = lmax;
                    });
                    let ruin = AdjacentStringRemoval::new(&ctx);
                    let re = GreedyBlink::default();
                    let reps = if thorough(rec.tier) { 12 } else { 2 };
                    for rep in 0..reps {
                        let mut s: Sol = vec![vec![]; slots];
                        for c in 1..=n {
                            if extreme {
                                s[if kind % 2 == 0 { 0 } else { c }].push(c);
                                continue;
                            }
                            s[if rep % 2 == 0 { r.below(slots) } else { c * (slots - 1) / (n + 1) }].push(c);
                        }
                        let mut x = loaded(&ctx, &s);
                        oracle::install(vec![], Policy::Stream(rep as u64 + 11), &oracle::REALS, 0);
                        for step in 0..if n > 100 { 15 } else { 60 } {
                            rec.states += 1;
                            rec.transitions += 2;
                            rec.traces += 2;
                            let before = routes_of(&x);
                            let what = || format!("step {step} of a chain on {} from {before:?}", inst.name);
                            let ok = rec.guard(what, |rec| {
                                ruin.run(&ctx, &mut x);
                                judge_ruin(rec, &inst, &before, &x, lmax, &what);
                                let mid = routes_of(&x);
                                let un = x.unassigned.clone();
                                let ruined = x.ruined_routes.iter().cloned().collect();
                                re.run(&ctx, &mut x);
                                judge_recreate(rec, &inst, &mid, &un, &ruined, &x, pen, &what);
                            });
                            if ok.is_none() || rec.stop() {
                                oracle::clear();
                                return;
                            }
                        }
                        oracle::clear();
                    }
                }
            }));
        }
    }
    // The search.
    for n in [1usize, 2, 3, 4] {
        for inst in family(n) {
            let i = inst.clone();
            v.push(unit(format!("search/n{n}/{}", i.name), move |rec| {
                let k = 3;
                let ctx = i.ctx_k(k, 2.0, |_| ());
                let mut se = Search::new(&i, &ctx);
                for s in refm::canonical_solutions(n, k) {
                    for (t0, steps) in [(10.0, 2usize), (0.5, 3)] {
                        rec.states += 1;
                        let devs = if thorough(rec.tier) { 2 } else { 1 };
                        oracle::explore(Policy::Stream(2), &oracle::REALS, 45, Some(devs), 20_000, |_| {
                            se.rr.set_acceptance(IterationSchedule::new(t0, steps).into());
                            let what = || format!("search from {s:?} temperature {t0} steps {steps}, {}", i.describe());
                            rec.guard(what, |rec| se.go(rec, &s, t0, steps, &what));
                            !rec.stop()
                        });
                        if rec.stop() {
                            return;
                        }
                    }
                    // Configured schedule, several loads of one object under several streams.
                    for st in 0..6u64 {
                        oracle::install(vec![], Policy::Stream(st), &oracle::REALS, 0);
                        let (t0, gamma) = [(10.0, 1.0), (1.0, 2.5), (100.0, 7.0)][st as usize % 3];
                        {
                            let mut c = ctx.config.borrow_mut();
                            c.rr_start_temp = t0;
                            c.rr_gamma = gamma;
                        }
                        let steps = crate::inst::round_half_away(gamma * n as f64) as usize;
                        se.rr.setup_mutation(&ctx);
                        let what = || format!("search from {s:?} temperature {t0} gamma {gamma} stream {st}, {}", i.describe());
                        rec.guard(what, |rec| {
                            se.go(rec, &s, t0, steps, &what);
                            // Loading again restarts the schedule.
                            se.go(rec, &s, t0, steps, &what);
                        });
                        oracle::clear();
                        if rec.stop() {
                            return;
                        }
                    }
                }
                rec.sample(|| format!("searches of 2..{} steps on {}", 7 * n, i.describe()));
            }));
        }
    }
    // However many steps are made, rounding errors do not add up.
    for n in [2usize, 3, 5] {
        for (fi, inst) in family(n).into_iter().enumerate() {
            v.push(unit(format!("drift/n{n}/{}", inst.name), move |rec| {
                let far = inst.with(&format!("{}_far", inst.name), |i| {
                    i.xy.iter_mut().for_each(|p| *p = (p.0 * 1e5, p.1 * 1e5));
                    i.dem.iter_mut().for_each(|d| *d *= 1.1);
                    i.cap *= 1.1;
                });
                let k = 3;
                let ctx = far.ctx_k(k, 1e6, |c| {
                    c.rr_gamma = if thorough(rec.tier) { 600_000.0 } else { 60_000.0 } / n as f64;
                    c.rr_start_temp = [10.0, 1e6, 1e8][(n + fi) % 3];
                });
                oracle::install(vec![], Policy::Stream(fi as u64), &oracle::REALS, 0).borrow_mut().limit = 2_000_000_000;
                let what = || format!("a long search on {}", far.describe());
                rec.guard(what, |rec| {
                    let mut s = ind(&ctx, &pad(vec![(1..=n).collect()], k));
                    let mut rr = RuinRecreate::new(&ctx);
                    rr.load(&ctx, &mut s);
                    let mut best = rr.best_cost();
                    while !rr.complete() {
                        rr.search();
                        rec.tick();
                        rec.states += 1;
                        rec.transitions += 1000;
                        let now = routes_of(&rr.solution);
                        for (r, nodes) in rr.solution.routes.iter().zip(&now) {
                            let (d, o) = (refm::route_dist(&far, nodes), refm::load(&far, nodes) - far.cap);
                            rec.check((r.distance - d).abs() < 1e-7 && (r.overload - o).abs() < 1e-11, P, || format!("route {nodes:?} tracked with distance {} overload {}, but these are {d} and {o}: {}", r.distance, r.overload, what()));
                        }
                        best = rr.best_cost();
                    }
                    let mut out = ind(&ctx, &pad(vec![(1..=n).collect()], k));
                    rr.get_best_solution(&mut out);
                    let real = refm::cost(&far, &out.phenotype, 1e6);
                    rec.check((best - real).abs() < 1e-7 + 1e-12 * real, P, || format!("best tracked with {best}, it costs {real}: {}", what()));
                    rec.traces += 1;
                });
                oracle::clear();
            }));
        }
    }
    for n in [6usize, 12, 30] {
        for kind in 0..4 {
            v.push(unit(format!("longsearch/n{n}/k{kind}"), move |rec| {
                let inst = large(n, kind);
                let total: f64 = inst.dem.iter().sum();
                let slots = (1.2 * (total / inst.cap).ceil() + 2.0).ceil() as usize;
                let pen = [0.2, 10.0][kind % 2];
                let reps = if thorough(rec.tier) { 20 } else { 3 };
                for rep in 0..reps {
                    for elite in [false, true] {
                        let ctx = inst.ctx_k(slots, pen, |c| {
                            c.elite_education_start_temp = 20.0;
                            c.elite_education_gamma = 3500.0 / n as f64;
                            c.rr_gamma = 400.0 / n as f64;
                            c.rr_start_temp = 20.0;
                        });
                        let mut se = Search::new(&inst, &ctx);
                        let mut r = Lcg(99 + rep);
                        let mut s: Sol = vec![vec![]; slots];
                        for c in 1..=n {
                            s[if rep % 2 == 0 { r.below(slots) } else { 0 }].push(c);
                        }
                        rec.states += 1;
                        oracle::install(vec![], Policy::Stream(rep), &oracle::REALS, 0);
                        let g = if elite {
                            se.rr.setup_elite_education(&ctx);
                            ctx.config.borrow().elite_education_gamma
                        } else {
                            se.rr.setup_mutation(&ctx);
                            ctx.config.borrow().rr_gamma
                        };
                        let steps = crate::inst::round_half_away(g * n as f64) as usize;
                        let what = || format!("elite={elite} search from {s:?} on {} stream {rep}", inst.name);
                        rec.guard(what, |rec| se.go(rec, &s, 20.0, steps, &what));
                        oracle::clear();
                        if rec.stop() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // Schedules: every sequence of operations.
    let depth = if th { 11 } else { 9 };
    for total in [1usize, 2, 3, 5] {
        v.push(unit(format!("schedule/iterations/{total}"), move |rec| {
            for t0 in [0.0, 10.0, 37.5] {
                for seq in 0u32..1 << depth {
                    rec.tick();
                    rec.states += 1;
                    let mut s = IterationSchedule::new(t0, total);
                    let mut it = 0usize;
                    let mut ok = true;
                    for b in 0..depth {
                        let want = temperature(t0, it as f64 / total as f64);
                        rec.transitions += 1;
                        ok = ok && rec.check((s.temp() - want).abs() < 1e-9, S, || format!("schedule of {total} steps from {t0}: temperature {} after {it} steps, should be {want} (operations {seq:b})", s.temp()));
                        ok = ok && rec.check(s.completed() == (it >= total), S, || format!("schedule of {total} steps: completed={} after {it} (operations {seq:b})", s.completed()));
                        if !ok {
                            return;
                        }
                        if seq >> b & 1 == 1 {
                            s.reset();
                            it = 0;
                        } else {
                            s.update();
                            it += 1;
                        }
                    }
                }
            }
            rec.traces += rec.states;
        }));
    }
    // Long schedules, step by step; time schedules of all lengths.
    for total in [100usize, 255, 256, 257, 5_000, 65_535, 65_537, 200_000, 1_100_000] {
        if !th && total > 1_000_000 {
            continue;
        }
        v.push(unit(format!("schedule/long/{total}"), move |rec| {
            rec.traces += 1;
            let t0 = 37.5;
            let mut s = IterationSchedule::new(t0, total);
            for round in 0..2 {
                for it in 0..=total {
                    if it % 1000 == 0 {
                        rec.tick();
                    }
                    rec.states += 1;
                    let want = temperature(t0, it as f64 / total as f64);
                    if !rec.check((s.temp() - want).abs() < 1e-9, S, || format!("schedule of {total} steps from {t0}: temperature {} after {it} steps, should be {want} (round {round})", s.temp()))
                        || !rec.check(s.completed() == (it >= total), S, || format!("schedule of {total} steps: completed={} after {it} (round {round})", s.completed()))
                    {
                        return;
                    }
                    s.update();
                    rec.transitions += 1;
                }
                s.reset();
            }
        }));
    }
    v.push(unit("schedule/durations", move |rec| {
        for dur in [0.5f64, 1.0, 7.25, 59.0, 61.0, 300.0, 3_600.0, 70_000.0, 1e6, 5e9] {
            rec.traces += 1;
            clock::start(1_000_000_000_000, 0, vec![]);
            let ns = (dur * 1e9) as u64;
            let mut s = TimeSchedule::new(20.0, Duration::from_secs_f64(dur));
            s.set_update_rate(1);
            let mut before = 0u64;
            for k in 0..=101u64 {
                rec.states += 1;
                rec.tick();
                let at = (ns as f64 * k as f64 / 100.0) as u64;
                clock::advance(at - before);
                before = at;
                s.update();
                let want = temperature(20.0, at as f64 / ns as f64);
                rec.check((s.temp() - want).abs() < 1e-5, S, || format!("time schedule of {dur} s: temperature {} after {at} ns and should be {want}", s.temp()));
                rec.check(k == 100 || s.completed() == (k > 100), S, || format!("time schedule of {dur} s: completed={} after {at} ns", s.completed()));
                rec.transitions += 1;
            }
            clock::clear();
        }
    }));
    for rate in [1usize, 2, 100] {
        v.push(unit(format!("schedule/time/{rate}"), move |rec| {
            // Operations: update burst, let time pass (3 amounts), reset.
            let depth = if thorough(rec.tier) { 7 } else { 6 };
            let total = 5u32.pow(depth);
            for code in 0..total {
                rec.tick();
                rec.states += 1;
                clock::start(1_000_000_000_000, 0, vec![]);
                let dur = 10.0;
                let mut s = TimeSchedule::new(20.0, Duration::from_secs_f64(dur));
                if rate != 100 {
                    s.set_update_rate(rate);
                }
                let mut el = 0.0f64; // since the last (re)start
                let mut temp = 20.0;
                let mut done = false;
                let mut seq = vec![];
                let mut c = code;
                for _ in 0..depth {
                    let op = c % 5;
                    c /= 5;
                    seq.push(op);
                    rec.transitions += 1;
                    match op {
                        0 => {
                            for _ in 0..rate {
                                s.update();
                            }
                            temp = temperature(20.0, el / dur);
                            done = done || el / dur >= 1.0;
                        }
                        1 | 2 | 3 => {
                            let ns = [0u64, 1_000_000_000, 4_500_000_000, 11_000_000_000][op as usize];
                            clock::advance(ns);
                            el += ns as f64 / 1e9;
                        }
                        _ => {
                            s.reset();
                            el = 0.0;
                            temp = 20.0;
                            done = false;
                        }
                    }
                    let ok = rec.check((s.temp() - temp).abs() < 1e-6, S, || format!("time schedule: temperature {} and should be {temp} after {el} s of {dur} (operations {seq:?}: 0 update, 1-3 wait 1, 4.5, 11 s, 4 reset; update rate {rate})", s.temp()))
                        && rec.check(s.completed() == done, S, || format!("time schedule: completed={} after {el} s of {dur} (operations {seq:?}, update rate {rate})", s.completed()));
                    if !ok {
                        clock::clear();
                        return;
                    }
                }
                clock::clear();
            }
            rec.traces += rec.states;
        }));
    }
    // Time-based elite education lasts the configured part of the time limit.
    v.push(unit("schedule/elite_time", move |rec| {
        let inst = &family(3)[0];
        for limit in [1u64, 10, 75, 3_600] {
            for part in [0.01f64, 0.1, 0.25, 0.5, 0.777, 1.0] {
                let end = (limit as f64 * part * 1e9).round() as u64;
                // Looks at these times, the last of them is over.
                for looks in [vec![end - 2000, end + 2000], vec![end / 3, end / 2, end - 2000, end + 2000], vec![end * 2]] {
                    rec.states += 1;
                    rec.traces += 1;
                    let what = || format!("time limit {limit} s, fraction {part}, looks after {looks:?} ns");
                    rec.guard(what, |rec| {
                        clock::start(1_000_000_000_000, 0, vec![]);
                        let ctx = inst.ctx_with(|c| {
                            c.elite_education = true;
                            c.elite_education_time_based = true;
                            c.elite_education_time_fraction = part;
                            c.elite_education_start_temp = 25.0;
                            c.time_limit = limit;
                        });
                        let mut rr = RuinRecreate::new(&ctx);
                        rr.setup_elite_education(&ctx);
                        let mut i = ind(&ctx, &pad(vec![vec![1, 2, 3]], ctx.config.borrow().num_vehicles as usize));
                        rr.load(&ctx, &mut i);
                        let mut before = 0;
                        for l in &looks {
                            clock::advance(l - before);
                            before = *l;
                            for _ in 0..100 {
                                rr.acceptance.update();
                            }
                            rec.transitions += 1;
                            rec.check(rr.complete() == (*l > end), S, || format!("elite education is complete={} after {l} ns of {end}: {}", rr.complete(), what()));
                        }
                    });
                    clock::clear();
                }
            }
        }
    }));
    v.push(unit("schedule/accept", move |rec| {
        for total in [1usize, 4, 10] {
            for t0 in [0.5, 10.0, 100.0] {
                for it in 0..total {
                    let mut s = IterationSchedule::new(t0, total);
                    for _ in 0..it {
                        s.update();
                    }
                    let temp = temperature(t0, it as f64 / total as f64);
                    let inst = &family(2)[0];
                    let ctx = inst.ctx();
                    for old in [0.0, 100.0, 1e6] {
                        for dn in [-1000.0, -1.0, -1e-3, 0.0, 1e-3, 0.5, 3.0, 20.0, 1e4] {
                            for u in [0.0, 1e-300, 0.001, 0.3, 0.5, 0.9, 0.9999999999999999] {
                                rec.states += 1;
                                rec.tick();
                                oracle::install(vec![], Policy::First, &[u], 10);
                                let new = old + dn;
                                let got = Acceptance::accept(&s, new, old, &ctx.random);
                                let wrapped: hybridcvrp::solver::improvement::AcceptanceCriterion = {
                                    let mut w = IterationSchedule::new(t0, total);
                                    for _ in 0..it {
                                        w.update();
                                    }
                                    w.into()
                                };
                                let got2 = wrapped.accept(new, old, &ctx.random);
                                let bound = old - temp * u.ln();
                                oracle::clear();
                                if (new - bound).abs() < 1e-5 {
                                    continue;
                                }
                                rec.check(got == (new < bound) && got2 == got, S, || format!("candidate cost {new}, current cost {old}, temperature {temp}, u {u}: accepted={got}/{got2}"));
                            }
                        }
                    }
                }
            }
        }
        rec.traces += rec.states;
        rec.transitions += rec.states;
    }));
    v
}
