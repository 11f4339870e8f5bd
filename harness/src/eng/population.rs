//! Population bookkeeping under every short sequence of additions, and parent selection.
use super::*;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst, Lcg};
use crate::oracle::{self, Policy};
use crate::refm;
use hybridcvrp::solver::genetic::{Population, SubPopulation};
use std::collections::{BTreeMap, BTreeSet};

pub static ENGINE: Engine = Engine { name: "population", tags: &["C16", "C17", "C19", "C23"], units };
const P: &[&str] = &["C16"];
const S: &[&str] = &["C17"];

#[derive(Clone, Copy, Debug)]
pub struct Par {
    pub min: u64,
    pub lambda: u64,
    pub elites: u64,
    pub closest: u64,
}

/// A member as the model sees it.
#[derive(Clone, Debug)]
pub struct Mem {
    pub id: u64,
    pub sol: Sol,
    pub cost: f64,
}

/// Model of one subpopulation, members in cost order. Recorded distances are those from the older to the newer one.
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub mem: Vec<Mem>,
}

impl Model {
    fn dist(&self, n: usize, a: usize, b: usize) -> i64 {
        let (x, y) = if self.mem[a].id < self.mem[b].id { (a, b) } else { (b, a) };
        refm::broken_pairs(&self.mem[x].sol, &self.mem[y].sol, n)
    }
    fn avg(&self, n: usize, a: usize, closest: u64) -> f64 {
        let mut d: Vec<i64> = (0..self.mem.len()).filter(|&b| b != a).map(|b| self.dist(n, a, b)).collect();
        d.sort();
        let k = (closest as usize).min(d.len());
        d[..k].iter().sum::<i64>() as f64 / k as f64
    }
    /// (cost rank, diversity value) of every member; ranks of equal diversity are open.
    fn fitness(&self, n: usize, p: &Par) -> Vec<f64> {
        let m = self.mem.len();
        if m == 1 {
            return vec![0.0];
        }
        let av: Vec<f64> = (0..m).map(|a| self.avg(n, a, p.closest)).collect();
        let mut ord: Vec<usize> = (0..m).collect();
        ord.sort_by(|&a, &b| av[b].partial_cmp(&av[a]).unwrap());
        let mut f = vec![0.0; m];
        for (rank, &i) in ord.iter().enumerate() {
            f[i] = Self::biased(i, rank, m, p);
        }
        f
    }
    fn biased(cost_rank: usize, div_rank: usize, m: usize, p: &Par) -> f64 {
        let den = (m - 1) as f64;
        let c = cost_rank as f64 / den;
        if m as u64 <= p.elites {
            c
        } else {
            c + (1.0 - p.elites as f64 / m as f64) * (div_rank as f64 / den)
        }
    }
    fn clone_of(&self, n: usize, a: usize) -> bool {
        (0..self.mem.len()).any(|b| b != a && self.dist(n, a, b) == 0)
    }
    /// The members that may be removed next.
    fn worst(&self, n: usize, p: &Par) -> Vec<usize> {
        let m = self.mem.len();
        let clones: Vec<usize> = (1..m).filter(|&a| self.clone_of(n, a)).collect();
        let pool: Vec<usize> = if clones.is_empty() { (1..m).collect() } else { clones };
        let av: Vec<f64> = (0..m).map(|a| self.avg(n, a, p.closest)).collect();
        // A member may go if some order of the members of equal diversity gives it the highest fitness of the pool.
        // Its own rank is then the highest of its class, which also leaves the lower ones to the others; in every
        // class the others must find places at which none of them exceeds it (earliest limit first).
        let class = |a: usize| {
            let lo = av.iter().filter(|x| **x > av[a] + 1e-12).count();
            let hi = av.iter().enumerate().filter(|(b, x)| *b != a && **x >= av[a] - 1e-12).count();
            (lo, hi)
        };
        let can = |a: usize| {
            let (_, hi) = class(a);
            let top = Self::biased(a, hi, m, p);
            let mut others: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            for b in (0..m).filter(|b| *b != a) {
                let (lo, bhi) = class(b);
                let mut ranks = (lo..=bhi).rev().skip_while(|&r| pool.contains(&b) && Self::biased(b, r, m, p) > top + 1e-9);
                match ranks.next() {
                    Some(limit) => others.entry(lo).or_default().push(limit),
                    None => return false,
                }
            }
            others.iter_mut().all(|(lo, limits)| {
                limits.sort();
                limits.iter().enumerate().all(|(k, limit)| lo + k <= *limit)
            })
        };
        let f = self.fitness(n, p);
        let mut out: Vec<usize> = pool.iter().cloned().filter(|&a| can(a)).collect();
        // The likeliest first: the implementation's way to break the ties.
        out.sort_by(|&a, &b| f[b].partial_cmp(&f[a]).unwrap().then(b.cmp(&a)));
        out
    }
    fn cull(&self, n: usize, p: &Par, want: &BTreeSet<u64>, out: &mut bool, budget: &mut u32) {
        if *out || *budget == 0 {
            return;
        }
        *budget -= 1;
        if self.mem.len() as u64 <= p.min {
            if self.mem.iter().map(|m| m.id).collect::<BTreeSet<_>>() == *want {
                *out = true;
            }
            return;
        }
        for w in self.worst(n, p) {
            if want.contains(&self.mem[w].id) {
                continue;
            }
            let mut x = self.clone();
            x.mem.remove(w);
            x.cull(n, p, want, out, budget);
        }
    }
}

fn ids(s: &SubPopulation) -> Vec<u64> {
    s.population.iter().map(|i| i.number).collect()
}

/// Everything that must hold of a subpopulation at rest.
pub fn judge(rec: &mut Rec, n: usize, s: &SubPopulation, feasible: bool, p: &Par, known: &BTreeMap<u64, Mem>, fit: bool, what: &dyn Fn() -> String) -> bool {
    let mut ok = true;
    let m = s.population.len();
    ok &= rec.check((m as u64) < p.min + p.lambda, P, || format!("{m} members, maximum {}: {}", p.min + p.lambda, what()));
    let mut model = Model::default();
    for i in &s.population {
        ok &= rec.check(i.is_feasible() == feasible, P, || format!("member {} feasible={} in the other subpopulation: {}", i.number, i.is_feasible(), what()));
        match known.get(&i.number) {
            Some(k) => {
                ok &= rec.check(k.sol == i.phenotype, P, || format!("member {} is {:?} and was added as {:?}: {}", i.number, i.phenotype, k.sol, what()));
                model.mem.push(Mem { id: i.number, sol: k.sol.clone(), cost: i.penalized_cost() });
            }
            None => {
                rec.fail(P, || format!("member {} was never added: {}", i.number, what()));
                return false;
            }
        }
    }
    ok &= rec.check(ids(s).iter().collect::<BTreeSet<_>>().len() == m, P, || format!("members {:?} share numbers: {}", ids(s), what()));
    for w in s.population.windows(2) {
        ok &= rec.check(w[0].penalized_cost() <= w[1].penalized_cost() + 2e-6, P, || format!("costs {:?} are not in order: {}", s.population.iter().map(|i| i.penalized_cost()).collect::<Vec<_>>(), what()));
    }
    if !ok {
        return false;
    }
    // Diversity records.
    for (a, i) in s.population.iter().enumerate() {
        let mut want: Vec<(i64, u64)> = (0..m).filter(|&b| b != a).map(|b| (model.dist(n, a, b), s.population[b].number)).collect();
        let empty = vec![];
        let got_v = s.diversity.get(&i.number).unwrap_or(&empty);
        let sorted = got_v.windows(2).all(|w| w[0].distance <= w[1].distance);
        let mut got: Vec<(i64, u64)> = got_v.iter().map(|d| (d.distance, d.to_number)).collect();
        want.sort();
        got.sort();
        ok &= rec.check(sorted && got == want, P, || format!("diversity records of member {} are {:?} (sorted={sorted}) and should be {want:?} (distance, to): {}", i.number, got, what()));
    }
    for k in s.diversity.keys() {
        ok &= rec.check(s.population.iter().any(|i| i.number == *k), P, || format!("diversity records of {k}, which is no member: {}", what()));
    }
    if !ok || !fit || m == 0 {
        return ok;
    }
    // Fitness: cost rank exactly, diversity rank up to ties.
    if m == 1 {
        return rec.check(s.population[0].fitness == 0.0, P, || format!("fitness {} of the only member: {}", s.population[0].fitness, what()));
    }
    let exact = model.fitness(n, p);
    let same = s.population.iter().zip(&exact).all(|(i, f)| (i.fitness - f).abs() < 1e-9);
    if !same {
        let av: Vec<f64> = (0..m).map(|a| model.avg(n, a, p.closest)).collect();
        let mut used = BTreeSet::new();
        for (a, i) in s.population.iter().enumerate() {
            let lo = av.iter().filter(|x| **x > av[a] + 1e-12).count();
            let hi = av.iter().enumerate().filter(|(b, x)| *b != a && **x >= av[a] - 1e-12).count();
            // Members of equal cost may stand in either order.
            let clo = model.mem.iter().filter(|x| x.cost < model.mem[a].cost - 1e-6).count();
            let chi = model.mem.iter().filter(|x| x.cost <= model.mem[a].cost + 1e-6).count() - 1;
            let mut hit = false;
            for c in clo..=chi {
                for r in lo..=hi {
                    if (Model::biased(c, r, m, p) - i.fitness).abs() < 1e-9 && (m as u64 <= p.elites || p.elites == m as u64 || used.insert((c == a, r)) || true) {
                        hit = true;
                    }
                }
            }
            ok &= rec.check(hit, P, || format!("member {} (cost rank {a} of {m}, average distances {av:?}) has fitness {} and should have {}: {}", i.number, i.fitness, exact[a], what()));
        }
    }
    ok
}

/// One addition: the state before, the newcomer, the state after.
fn judge_add(rec: &mut Rec, n: usize, before: &[Mem], new: &Mem, after: &SubPopulation, p: &Par, what: &dyn Fn() -> String) {
    let got: BTreeSet<u64> = after.population.iter().map(|i| i.number).collect();
    let mut model = Model { mem: before.to_vec() };
    let is_clone = before.iter().any(|b| refm::broken_pairs(&b.sol, &new.sol, n) == 0);
    if !is_clone {
        let at = model.mem.iter().position(|m| m.cost > new.cost).unwrap_or(model.mem.len());
        model.mem.insert(at, new.clone());
    }
    if (model.mem.len() as u64) < p.min + p.lambda {
        let want: BTreeSet<u64> = model.mem.iter().map(|m| m.id).collect();
        rec.check(got == want, P, || format!("members {got:?} instead of {want:?} (newcomer {} {:?}, identical to a member: {is_clone}): {}", new.id, new.sol, what()));
        return;
    }
    rec.check(got.len() as u64 == p.min, P, || format!("{} members left of {}, minimum {}: {}", got.len(), model.mem.len(), p.min, what()));
    let best = model.mem[0].cost;
    rec.check(after.population.first().map_or(false, |i| i.penalized_cost() <= best + 2e-6), P, || format!("the cheapest member was lost (cost {best}): {}", what()));
    let mut ok = false;
    // Newcomers of equal cost may have been put at either place.
    let first = model.mem.iter().position(|m| m.id == new.id);
    let mut places = vec![];
    if let Some(f) = first {
        for at in 0..model.mem.len() {
            if (model.mem[at].cost - new.cost).abs() < 2e-6 {
                places.push((f, at));
            }
        }
    } else {
        places.push((0, 0));
    }
    places.sort_by_key(|(f, a)| (*f as i64 - *a as i64).abs());
    for (f, at) in places {
        let mut x = model.clone();
        if first.is_some() {
            let m = x.mem.remove(f);
            x.mem.insert(at, m);
        }
        let mut budget = 2000;
        x.cull(n, p, &got, &mut ok, &mut budget);
        if ok || budget == 0 {
            ok = true;
            break;
        }
    }
    rec.check(ok, P, || format!("survivors {got:?} of {:?}: no order of worst-first removals leaves them: {}", model.mem.iter().map(|m| (m.id, m.cost)).collect::<Vec<_>>(), what()));
}

struct Run<'a> {
    n: usize,
    ctx: &'a Context,
    p: Par,
    pop: Population,
    known: BTreeMap<u64, Mem>,
}

impl<'a> Run<'a> {
    fn new(ctx: &'a Context, n: usize, p: Par) -> Self {
        Run { n, ctx, p, pop: Population::new(ctx), known: BTreeMap::new() }
    }
    fn add(&mut self, rec: &mut Rec, i: &Individual, update: bool, check: bool, what: &dyn Fn() -> String) {
        let id = self.pop.total_individuals_count;
        let new = Mem { id, sol: i.phenotype.clone(), cost: i.penalized_cost() };
        let snap = |s: &SubPopulation, known: &BTreeMap<u64, Mem>| -> Vec<Mem> { s.population.iter().map(|i| known.get(&i.number).cloned().unwrap_or(Mem { id: i.number, sol: vec![], cost: 0.0 })).collect() };
        let fe = i.is_feasible();
        let before = if check { snap(if fe { &self.pop.feasible } else { &self.pop.infeasible }, &self.known) } else { vec![] };
        let other = ids(if fe { &self.pop.infeasible } else { &self.pop.feasible });
        let hist = self.pop.feasible_history.clone();
        self.known.insert(id, new.clone());
        self.pop.add_individual(self.ctx, i.clone(), update);
        if !check {
            return;
        }
        rec.transitions += 1;
        let (mine, theirs) = if fe { (&self.pop.feasible, &self.pop.infeasible) } else { (&self.pop.infeasible, &self.pop.feasible) };
        rec.check(ids(theirs) == other, P, || format!("adding a feasible={fe} individual changed the other subpopulation: {}", what()));
        if judge(rec, self.n, mine, fe, &self.p, &self.known, true, what) {
            judge_add(rec, self.n, &before, &new, mine, &self.p, what);
        }
        let mut want = hist;
        if update {
            want.push(fe);
            want.remove(0);
        }
        rec.check(self.pop.feasible_history == want, &["C19"], || format!("feasibility record wrong: {}", what()));
        rec.check(self.pop.size() == self.pop.feasible.population.len() + self.pop.infeasible.population.len(), P, || format!("size {}: {}", self.pop.size(), what()));
    }
}

/// A few solutions that collide: same routes in other order or direction, shared adjacencies, equal costs.
pub fn alphabet(inst: &Inst, k: usize, size: usize, feasible: bool, pen: f64) -> Vec<Sol> {
    let n = inst.n();
    let all: Vec<Sol> = refm::canonical_solutions(n, k).into_iter().filter(|s| refm::eval(inst, s, pen).feasible == feasible).collect();
    let mut v: Vec<Sol> = vec![];
    if all.is_empty() {
        return v;
    }
    let step = (all.len() / (size - size / 3)).max(1);
    for s in all.iter().step_by(step).take(size - size / 3) {
        v.push(s.clone());
    }
    for i in 0..size / 3 {
        let mut s = v[i % v.len().max(1)].clone();
        if i % 2 == 0 {
            s.reverse();
        } else {
            for r in s.iter_mut() {
                r.reverse();
            }
        }
        v.push(s);
    }
    v
}

fn units(t: Tier) -> Vec<Unit> {
    let mut v = vec![];
    let th = thorough(t);
    let pars = [
        Par { min: 2, lambda: 2, elites: 1, closest: 1 },
        Par { min: 1, lambda: 3, elites: 0, closest: 2 },
        Par { min: 2, lambda: 1, elites: 4, closest: 5 },
        Par { min: 3, lambda: 2, elites: 2, closest: 2 },
        Par { min: 4, lambda: 2, elites: 3, closest: 3 },
    ];
    for (ii, inst) in family(4).into_iter().enumerate() {
        for p in pars {
            for feasible in [true, false] {
                let inst = inst.clone();
                let size = if th { 8 } else { 6 };
                let len = if th { 7usize } else { 6 };
                if !th && ii % 2 == 1 && p.min != 2 {
                    continue;
                }
                v.push(unit(format!("adds/{}/min{}l{}e{}c{}/feas{feasible}", inst.name, p.min, p.lambda, p.elites, p.closest), move |rec| {
                    let k = 4;
                    let pen = 2.0;
                    let ctx = inst.ctx_k(k, pen, |c| set(c, &p));
                    let alpha: Vec<Individual> = alphabet(&inst, k, size, feasible, pen).iter().map(|s| ind(&ctx, s)).collect();
                    if alpha.is_empty() {
                        return;
                    }
                    // Every sequence: depth-first, checking each new last addition once.
                    let mut seq = vec![0usize];
                    loop {
                        rec.tick();
                        rec.states += 1;
                        rec.traces += 1;
                        let what = || format!("additions {:?} of {:?} (minimum {}, lambda {}, elites {}, closest {}), {}", seq, alpha.iter().map(|a| &a.phenotype).collect::<Vec<_>>(), p.min, p.lambda, p.elites, p.closest, inst.describe());
                        rec.guard(what, |rec| {
                            let mut run = Run::new(&ctx, inst.n(), p);
                            for (j, &a) in seq.iter().enumerate() {
                                run.add(rec, &alpha[a], j % 2 == 0, j + 1 == seq.len(), &what);
                            }
                        });
                        if rec.stop() {
                            return;
                        }
                        // Next sequence in depth-first order.
                        if seq.len() < len {
                            seq.push(0);
                        } else {
                            loop {
                                let Some(l) = seq.last_mut() else { break };
                                if *l + 1 < alpha.len() {
                                    *l += 1;
                                    break;
                                }
                                seq.pop();
                            }
                            if seq.is_empty() {
                                break;
                            }
                        }
                    }
                    rec.sample(|| format!("all sequences of up to {len} additions over {:?}", alpha.iter().map(|a| &a.phenotype).collect::<Vec<_>>()));
                }));
            }
        }
    }
    // Long mixed sequences with default-like sizes, every addition checked; costs re-evaluated now and then.
    for n in [5usize, 8, 15] {
        for kind in 0..4 {
            v.push(unit(format!("long/n{n}/k{kind}"), move |rec| {
                let inst = large(n, kind);
                for (pi, p) in [Par { min: 25, lambda: 40, elites: 4, closest: 5 }, Par { min: 5, lambda: 8, elites: 2, closest: 3 }, Par { min: 3, lambda: 4, elites: 6, closest: 1 }, Par { min: 55, lambda: 70, elites: 12, closest: 33 }].into_iter().enumerate() {
                    let slots = (1.2 * (inst.dem.iter().sum::<f64>() / inst.cap).ceil() + 2.0).ceil() as usize;
                    let ctx = inst.ctx_k(slots, 1.0, |c| set(c, &p));
                    let mut r = Lcg(n as u64 * 31 + kind as u64 + pi as u64 * 1000);
                    let mut run = Run::new(&ctx, n, p);
                    let mut last: Vec<Sol> = vec![];
                    for step in 0..if thorough(rec.tier) { 800 } else { 300 } {
                        rec.tick();
                        rec.states += 1;
                        let mut s: Sol = vec![vec![]; slots];
                        if !last.is_empty() && r.below(3) == 0 {
                            s = last[r.below(last.len())].clone();
                            match r.below(3) {
                                0 => s.reverse(),
                                1 => s.iter_mut().for_each(|x| x.reverse()),
                                _ => {
                                    let k = r.below(slots);
                                    s[k].reverse();
                                }
                            }
                        } else {
                            let mut g: Vec<usize> = (1..=n).collect();
                            for i in (1..n).rev() {
                                g.swap(i, r.below(i + 1));
                            }
                            for (x, c) in g.into_iter().enumerate() {
                                let k = if step % 2 == 0 { r.below(slots) } else { x * slots / n };
                                s[k].push(c);
                            }
                        }
                        last.push(s.clone());
                        let i = ind(&ctx, &s);
                        let what = || format!("addition {step} of a long sequence on {} ({p:?}): {s:?}", inst.name);
                        rec.guard(what, |rec| run.add(rec, &i, r.0 % 2 == 0, true, &what));
                        if rec.stop() {
                            return;
                        }
                    }
                    rec.traces += 1;
                }
            }));
        }
    }
    // Removal order when the records contain clones.
    v.push(unit("removal/clones", move |rec| {
        for inst in family(4).into_iter().take(4) {
            let p = Par { min: 2, lambda: 8, elites: 1, closest: 2 };
            let ctx = inst.ctx_k(4, 2.0, |c| set(c, &p));
            for feasible in [true, false] {
                let alpha: Vec<Individual> = alphabet(&inst, 4, 5, feasible, 2.0).iter().map(|s| ind(&ctx, s)).collect();
                let mut pop = Population::new(&ctx);
                for a in &alpha {
                    pop.add_individual(&ctx, a.clone(), false);
                }
                let m = if feasible { pop.feasible.size() } else { pop.infeasible.size() };
                for a in 0..m {
                    for b in 0..m {
                        if a == b {
                            continue;
                        }
                        rec.tick();
                        rec.states += 1;
                        rec.transitions += 1;
                        let mut pop = Population::new(&ctx);
                        for x in &alpha {
                            pop.add_individual(&ctx, x.clone(), false);
                        }
                        let s = if feasible { &mut pop.feasible } else { &mut pop.infeasible };
                        let (ia, ib) = (s.population[a].number, s.population[b].number);
                        for (x, y) in [(ia, ib), (ib, ia)] {
                            let d = s.diversity.get_mut(&x).unwrap();
                            let k = d.iter().position(|e| e.to_number == y).unwrap();
                            let mut e = d.remove(k);
                            e.distance = 0;
                            d.insert(0, e);
                        }
                        let fit: Vec<f64> = s.population.iter().map(|i| i.fitness).collect();
                        let before = ids(s);
                        s.natural_selection(&ctx);
                        let after = ids(s);
                        let gone: Vec<usize> = (0..m).filter(|i| !after.contains(&before[*i])).collect();
                        let pool: Vec<usize> = [a, b].into_iter().filter(|&x| x > 0).collect();
                        let top = pool.iter().map(|&x| fit[x]).fold(f64::NEG_INFINITY, f64::max);
                        rec.check(gone.len() == 1 && pool.contains(&gone[0]) && fit[gone[0]] >= top - 1e-9, P, || format!("members {a} and {b} are clones, fitness {fit:?}: removed {gone:?}, {}", inst.describe()));
                    }
                }
            }
        }
        rec.traces += rec.states;
    }));
    // Parent selection: every draw.
    for k in [1u64, 2, 3, 5, 9, 20] {
        v.push(unit(format!("parents/k{k}"), move |rec| {
            for inst in family(4).into_iter().take(4) {
                let p = Par { min: 3, lambda: 5, elites: 1, closest: 2 };
                let pen = 2.0;
                let ctx = inst.ctx_k(4, pen, |c| {
                    set(c, &p);
                    c.tournament_size = k;
                });
                for (nf, ni) in [(0usize, 1usize), (1, 0), (2, 2), (4, 0), (0, 4), (3, 1), (1, 4)] {
                    let mut pop = Population::new(&ctx);
                    for (f, cnt) in [(true, nf), (false, ni)] {
                        for s in alphabet(&inst, 4, 9, f, pen).iter().take(cnt) {
                            pop.add_individual(&ctx, ind(&ctx, s), false);
                        }
                    }
                    let m = pop.size();
                    if m == 0 {
                        continue;
                    }
                    rec.states += 1;
                    let fit: Vec<f64> = pop.feasible.population.iter().chain(pop.infeasible.population.iter()).map(|i| i.fitness).collect();
                    let nums: Vec<(bool, u64)> = pop.feasible.population.iter().map(|i| (true, i.number)).chain(pop.infeasible.population.iter().map(|i| (false, i.number))).collect();
                    let mut seen = BTreeSet::new();
                    let mut seen_draws: BTreeSet<Vec<u32>> = BTreeSet::new();
                    let (runs, _) = oracle::explore(Policy::First, &oracle::REALS, 20, if k > 3 { Some(3) } else { None }, 100_000, |st| {
                        let what = || format!("tournament of {k} among {m}, {}", inst.describe());
                        rec.guard(what, |rec| {
                            let w = pop.get_parent(&ctx);
                            let wi = nums.iter().position(|x| *x == (w.is_feasible(), w.number));
                            let s = st.borrow();
                            let draws: Vec<u32> = s.trace.iter().filter(|c| !c.real).map(|c| c.c).collect();
                            // With one member there is nothing to choose.
                            rec.check(m == 1 || (s.draws == k && s.trace.iter().all(|c| !c.real && c.n as usize == m)), S, || format!("draws {:?} instead of {k} out of {m} members: {}", s.trace, what()));
                            let Some(wi) = wi else {
                                rec.fail(S, || format!("the parent is no member: {}", what()));
                                return;
                            };
                            if m > 1 && draws.iter().all(|d| (*d as usize) < m) {
                                let top = draws.iter().map(|&d| fit[d as usize]).fold(f64::INFINITY, f64::min);
                                rec.check(fit[wi] <= top && draws.contains(&(wi as u32)), S, || format!("drew members {draws:?} with fitness {fit:?} and took {wi}: {}", what()));
                            }
                            seen.insert(wi);
                            seen_draws.insert(draws);
                        });
                        !rec.stop()
                    });
                    rec.transitions += runs;
                    rec.traces += runs;
                    if rec.stop() {
                        return;
                    }
                    rec.check(k > 3 || seen.len() == m || k > 1 && (0..m).all(|i| seen.contains(&i) || fit.iter().enumerate().any(|(j, f)| j != i && *f <= fit[i])), S, || format!("only members {seen:?} of {m} can become parents: {}", inst.describe()));
                    rec.check(m == 1 || k > 3 || seen_draws.len() == m.pow(k as u32), S, || format!("{} different draws of {k} out of {m}", seen_draws.len()));
                }
            }
        }));
    }
    // Many members: every draw.
    for (m, infeasible) in [(30usize, 20usize), (51, 0), (64, 64), (70, 3), (130, 130)] {
        v.push(unit(format!("parents/many{m}+{infeasible}"), move |rec| {
            let n = 15;
            let inst = large(n, 3);
            let p = Par { min: 100, lambda: 100, elites: 4, closest: 5 };
            let slots = 7;
            let total = m + infeasible;
            let ctx = inst.ctx_k(slots, 1.0, |c| set(c, &p));
            let mut pop = Population::new(&ctx);
            let mut r = Lcg(m as u64);
            let mut tries = 0;
            while (pop.feasible.size() < m || pop.infeasible.size() < infeasible) && tries < 100_000 {
                tries += 1;
                let mut g: Vec<usize> = (1..=n).collect();
                for i in (1..n).rev() {
                    g.swap(i, r.below(i + 1));
                }
                // Even shares, or everything on few routes.
                let cut = if tries % 2 == 0 { 3 } else { n };
                let mut s: Sol = vec![vec![]; slots];
                g.into_iter().enumerate().for_each(|(x, c)| s[x / cut % slots].push(c));
                let i = ind(&ctx, &s);
                if i.is_feasible() && pop.feasible.size() < m || !i.is_feasible() && pop.infeasible.size() < infeasible {
                    pop.add_individual(&ctx, i, false);
                }
            }
            if pop.size() != total {
                panic!("HARNESS: {} members", pop.size());
            }
            let fit: Vec<f64> = pop.feasible.population.iter().chain(pop.infeasible.population.iter()).map(|i| i.fitness).collect();
            let nums: Vec<(bool, u64)> = pop.feasible.population.iter().map(|i| (true, i.number)).chain(pop.infeasible.population.iter().map(|i| (false, i.number))).collect();
            for k in [1u64, 2] {
                ctx.config.borrow_mut().tournament_size = k;
                let mut seen = BTreeSet::new();
                let (runs, _) = oracle::explore(Policy::First, &oracle::REALS, 20, None, 100_000, |st| {
                    let what = || format!("tournament of {k} among {m} feasible and {infeasible} infeasible members");
                    rec.guard(what, |rec| {
                        let w = pop.get_parent(&ctx);
                        let wi = nums.iter().position(|x| *x == (w.is_feasible(), w.number));
                        let s = st.borrow();
                        let draws: Vec<usize> = s.trace.iter().filter(|c| !c.real).map(|c| c.c as usize).collect();
                        rec.check(s.draws == k && s.trace.iter().all(|c| !c.real && c.n as usize == total), S, || format!("draws {:?} instead of {k} out of {total} members: {}", s.trace, what()));
                        let top = draws.iter().filter(|d| **d < total).map(|&d| fit[d]).fold(f64::INFINITY, f64::min);
                        rec.check(wi.map_or(false, |wi| fit[wi] <= top && draws.contains(&wi)), S, || format!("drew members {draws:?} and took {wi:?}: {}", what()));
                        seen.extend(wi);
                    });
                    !rec.stop()
                });
                rec.transitions += runs;
                rec.traces += runs;
                rec.states += 1;
                if rec.stop() {
                    return;
                }
                rec.check(k > 1 || seen.len() == total, S, || format!("only {} of {total} members can become parents", seen.len()));
            }
        }));
    }
    v
}

fn set(c: &mut hybridcvrp::config::Config, p: &Par) {
    c.min_population_size = p.min;
    c.population_lambda = p.lambda;
    c.num_elites = p.elites;
    c.num_diversity_closest = p.closest;
}
