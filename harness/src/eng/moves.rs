//! Local-search moves: prediction against plain list surgery, and the linked structure after carrying them out.
use super::*;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst, Lcg};
use crate::refm::{self, At, Mv};
use hybridcvrp::models::CircleSector;
use hybridcvrp::solver::improvement::{LinkNode, LocalSearch, Move, RelocateDouble, RelocateDoubleReverse, RelocateSingle, SwapOneWithOne, SwapTwoWithOne, SwapTwoWithTwo, TwoOptInter, TwoOptInterReverse, TwoOptIntraReverse};

pub static ENGINE: Engine = Engine { name: "moves", tags: &["C10", "C13", "C23"], units };
const P: &[&str] = &["C10"];

pub fn real(m: Mv) -> &'static dyn Move {
    match m {
        Mv::RelocateSingle => &RelocateSingle,
        Mv::RelocateDouble => &RelocateDouble,
        Mv::RelocateDoubleReverse => &RelocateDoubleReverse,
        Mv::SwapOneWithOne => &SwapOneWithOne,
        Mv::SwapTwoWithOne => &SwapTwoWithOne,
        Mv::SwapTwoWithTwo => &SwapTwoWithTwo,
        Mv::TwoOptIntraReverse => &TwoOptIntraReverse,
        Mv::TwoOptInterReverse => &TwoOptInterReverse,
        Mv::TwoOptInter => &TwoOptInter,
    }
}

pub fn node(ls: &mut LocalSearch, a: At) -> *mut LinkNode {
    match a {
        At::Cust(c) => &mut ls.nodes[c] as *mut LinkNode,
        At::Start(r) => &mut ls.start_depots[r] as *mut LinkNode,
    }
}

/// The routes as linked (None: not well formed within the number of customers).
pub fn lists(ls: &LocalSearch) -> Option<Sol> {
    let n = ls.nodes.len() - 1;
    let mut out = vec![];
    for r in &ls.routes {
        let mut v = vec![];
        let mut p = r.start_depot;
        let mut steps = 0;
        while !p.is_null() {
            unsafe {
                if (*p).number != 0 {
                    v.push((*p).number);
                }
                p = (*p).successor;
            }
            steps += 1;
            if steps > n + 3 {
                return None;
            }
        }
        out.push(v);
    }
    Some(out)
}

/// Every cached datum of the linked routes against a recomputation from the lists `s`.
pub fn caches(rec: &mut Rec, ls: &LocalSearch, fresh: Option<&LocalSearch>, inst: &Inst, s: &Sol, pen: f64, what: &dyn Fn() -> String) {
    unsafe {
        for (ri, r) in ls.routes.iter().enumerate() {
            let e = refm::route_dist(inst, &s[ri]);
            let load = refm::load(inst, &s[ri]);
            rec.check(refm::close(r.distance, e), P, || format!("route {ri} has cached distance {} and should have {e}: {}", r.distance, what()));
            rec.check(refm::close(r.load, load), P, || format!("route {ri} has cached load {} and should have {load}: {}", r.load, what()));
            rec.check(refm::close(r.overload, load - inst.cap), P, || format!("route {ri} has cached overload {} with load {load}: {}", r.overload, what()));
            let cost = e + pen * (load - inst.cap).max(0.0);
            rec.check(refm::close(r.cost, cost), P, || format!("route {ri} has cached cost {} and should have {cost}: {}", r.cost, what()));
            rec.check(r.num_customers == s[ri].len() && r.is_empty() == s[ri].is_empty(), P, || format!("route {ri} has {} customers: {}", r.num_customers, what()));
            rec.check(ls.empty_routes.contains(&ri) == s[ri].is_empty(), P, || format!("set of empty routes {:?}: {}", ls.empty_routes, what()));
            let mut seq: Vec<(usize, *const LinkNode)> = vec![(0, r.start_depot)];
            seq.extend(s[ri].iter().map(|&c| (c, &ls.nodes[c] as *const LinkNode)));
            seq.push((0, r.end_depot));
            let (mut d, mut l) = (0.0, 0.0);
            for (p, (c, ptr)) in seq.iter().enumerate() {
                let nd = &**ptr;
                if p > 0 {
                    d += if *c == 0 && seq[p - 1].0 == 0 { 0.0 } else { inst.d(seq[p - 1].0, *c) };
                    l += inst.dem[*c];
                    rec.check(std::ptr::eq(nd.predecessor, seq[p - 1].1), P, || format!("wrong predecessor at place {p} of route {ri}: {}", what()));
                    rec.check(refm::close(nd.cum_distance, d) && refm::close(nd.cum_load, l), P, || format!("node {c} of route {ri}: cached distance so far {} load so far {}, should be {d} and {l}: {}", nd.cum_distance, nd.cum_load, what()));
                    rec.check(nd.position == p, P, || format!("node {c} has position {} and should have {p}: {}", nd.position, what()));
                } else {
                    rec.check(nd.predecessor.is_null() && refm::close(nd.cum_distance, 0.0) && refm::close(nd.cum_load, 0.0) && nd.position == 0, P, || format!("start depot of route {ri} not clean: {}", what()));
                }
                if p + 1 < seq.len() {
                    rec.check(std::ptr::eq(nd.successor, seq[p + 1].1), P, || format!("wrong successor at place {p} of route {ri}: {}", what()));
                } else {
                    rec.check(nd.successor.is_null(), P, || format!("end depot of route {ri} has a successor: {}", what()));
                }
                rec.check(!nd.route.is_null() && (*nd.route).index == ri, P, || format!("node {c} points to another route than {ri}: {}", what()));
            }
            // Sector: holds every customer's direction; equal to the sector built afresh.
            for &c in &s[ri] {
                let a = ls.nodes[c].angle as i64;
                let ok = refm::arc_has(r.sector.start as i64, r.sector.end as i64, a);
                rec.check(ok, &["C13"], || format!("sector [{}, {}] of route {ri} misses customer {c} at angle {a}: {}", r.sector.start, r.sector.end, what()));
                rec.check(refm::angle_ok(inst, c, a), &["C13"], || format!("angle of customer {c} is {a}: {}", what()));
            }
            if let Some(f) = fresh {
                let g: &CircleSector = &f.routes[ri].sector;
                if !s[ri].is_empty() {
                    rec.check((g.start, g.end) == (r.sector.start, r.sector.end), P, || format!("sector of route {ri} is [{}, {}], fresh it is [{}, {}]: {}", r.sector.start, r.sector.end, g.start, g.end, what()));
                }
            }
        }
    }
}

pub struct Pair {
    pub inst: Inst,
    pub ctx: Box<Context>,
    pub ls: LocalSearch,
    pub fresh: LocalSearch,
    pub mult: f64,
    pub pen: f64,
}

impl Pair {
    pub fn new(inst: &Inst, k: usize, pen: f64, mult: f64) -> Self {
        let ctx = inst.ctx_k(k, pen, |c| c.relocate_double_reverse = true);
        let ls = LocalSearch::new(&ctx, 1.0);
        let fresh = LocalSearch::new(&ctx, 1.0);
        Pair { inst: inst.clone(), ctx, ls, fresh, mult, pen }
    }
    pub fn load(&mut self, s: &Sol) {
        let i = ind(&self.ctx, s);
        self.ls.reset();
        self.ls.update_penalty(self.mult);
        self.ls.load_individual(&i);
    }
    pub fn load_fresh(&mut self, s: &Sol) {
        let i = ind(&self.ctx, s);
        self.fresh.reset();
        self.fresh.update_penalty(self.mult);
        self.fresh.load_individual(&i);
    }
}

pub fn targets(s: &Sol, n: usize) -> Vec<(At, Vec<Mv>)> {
    let mut v: Vec<(At, Vec<Mv>)> = (1..=n).map(|c| (At::Cust(c), refm::NEIGHBOR.to_vec())).collect();
    for (r, route) in s.iter().enumerate() {
        v.push((At::Start(r), if route.is_empty() { refm::EMPTY.to_vec() } else { refm::DEPOT.to_vec() }));
    }
    v
}

fn state(rec: &mut Rec, p: &mut Pair, s: &Sol) {
    let n = p.inst.n();
    let pen = p.pen * p.mult;
    rec.states += 1;
    p.load(s);
    let desc = p.inst.describe();
    caches(rec, &p.ls, None, &p.inst, s, pen, &|| format!("after loading {s:?} penalty {pen} {desc}"));
    let tg = targets(s, n);
    for u in 1..=n {
        for (v, ms) in &tg {
            if *v == At::Cust(u) {
                continue;
            }
            for &m in ms {
                rec.transitions += 1;
                let (pu, pv) = (node(&mut p.ls, At::Cust(u)), node(&mut p.ls, *v));
                let got = unsafe { real(m).delta(&p.ls, pu, pv) };
                let what = || format!("{m:?} u={u} v={v:?} in {s:?} penalty {pen} {desc}");
                match refm::apply(s, m, u, *v) {
                    None => {
                        rec.check(!(got < -1e-6), P, || format!("predicted {got} although the move does not apply: {}", what()));
                    }
                    Some(t) => {
                        let want = refm::delta(&p.inst, s, &t, pen);
                        rec.check(refm::close(got, want), P, || format!("predicted {got}, real change {want}: {}", what()));
                        if got < -1e-6 && !rec.stop() {
                            // Carry it out the way the search does.
                            p.ls.move_count += 1;
                            unsafe { real(m).perform(&mut p.ls, pu, pv) };
                            rec.traces += 1;
                            match lists(&p.ls) {
                                Some(l) => {
                                    if rec.check(l == t, P, || format!("the move gives {l:?} and should give {t:?}: {}", what())) {
                                        p.load_fresh(&t);
                                        caches(rec, &p.ls, Some(&p.fresh), &p.inst, &t, pen, &|| format!("after {}", what()));
                                    }
                                }
                                None => rec.fail(P, || format!("routes are not well linked after {}", what())),
                            }
                            p.load(s);
                        }
                    }
                }
            }
        }
        if rec.stop() {
            return;
        }
    }
}

fn units(t: Tier) -> Vec<Unit> {
    let mut v = vec![];
    let mut sizes: Vec<(usize, usize)> = vec![(1, 1), (1, 2), (2, 1), (2, 3), (3, 2), (3, 3), (4, 1), (4, 3), (5, 1), (5, 2), (5, 3)];
    if thorough(t) {
        sizes.extend([(4, 4), (6, 1), (6, 2), (6, 3), (7, 2)]);
    }
    for (n, k) in sizes {
        for inst in family(n) {
            for (pen, mult) in [(0.01, 1.0), (4.0, 1.0), (30.0, 10.0)] {
                if n <= 3 || pen != 0.01 || inst.name == "generic" || thorough(t) {
                    let all = refm::solutions(n, k);
                    let chunk = 2600;
                    let total = all.len();
                    for lo in (0..total).step_by(chunk) {
                        let inst = inst.clone();
                        v.push(unit(format!("all/n{n}/k{k}/{}/p{pen}/{lo}", inst.name), move |rec| {
                            let mut p = Pair::new(&inst, k, pen, mult);
                            let sols = refm::solutions(n, k);
                            for s in &sols[lo..(lo + chunk).min(total)] {
                                rec.guard(|| format!("{s:?} {}", inst.describe()), |rec| state(rec, &mut p, s));
                                if rec.stop() {
                                    return;
                                }
                            }
                            rec.sample(|| format!("all {total} route assignments, {}", inst.describe()));
                        }));
                    }
                }
            }
        }
    }
    // Longer routes.
    for n in [8usize, 12, 26] {
        for kind in 0..4 {
            v.push(unit(format!("large/n{n}/k{kind}"), move |rec| {
                let inst = large(n, kind);
                let mut r = Lcg(31 + (n * 4 + kind) as u64);
                let reps = if thorough(rec.tier) { 120 } else { 12 };
                for k in [2usize, 4] {
                    let mut p = Pair::new(&inst, k, 12.0, 1.0);
                    for rep in 0..reps {
                        let mut s: Sol = vec![vec![]; k];
                        let mut tour: Vec<usize> = (1..=n).collect();
                        for i in (1..n).rev() {
                            tour.swap(i, r.below(i + 1));
                        }
                        let used = if rep % 3 == 0 { k - 1 } else { k };
                        for c in tour {
                            let x = r.below(used);
                            s[x].push(c);
                        }
                        rec.guard(|| format!("{s:?} {}", inst.describe()), |rec| state(rec, &mut p, &s));
                        if rec.stop() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    v
}
