//! Reference oracles, written without looking at how the implementation computes things.
use crate::inst::Inst;

pub const EPS: f64 = 1e-6;

/// Equal up to accumulated rounding.
pub fn close(a: f64, b: f64) -> bool {
    if a == b {
        return true;
    }
    (a - b).abs() <= 2e-6 + 1e-9 * a.abs().max(b.abs())
}

pub type Sol = Vec<Vec<usize>>;

#[derive(Clone, Debug)]
pub struct Eval {
    pub cost: f64,
    pub dist: Vec<f64>,
    pub over: Vec<f64>,
    pub total_dist: f64,
    pub feasible: bool,
}

pub fn route_dist(i: &Inst, r: &[usize]) -> f64 {
    // The depot's distance to itself is zero, so an empty route is free.
    if r.is_empty() {
        return 0.0;
    }
    let mut d = i.d(0, r[0]);
    for w in r.windows(2) {
        d += i.d(w[0], w[1]);
    }
    d + i.d(r[r.len() - 1], 0)
}

pub fn load(i: &Inst, r: &[usize]) -> f64 {
    r.iter().map(|&c| i.dem[c]).sum()
}

pub fn eval(i: &Inst, s: &[Vec<usize>], pen: f64) -> Eval {
    let dist: Vec<f64> = s.iter().map(|r| route_dist(i, r)).collect();
    let over: Vec<f64> = s.iter().map(|r| load(i, r) - i.cap).collect();
    let total_dist: f64 = dist.iter().sum();
    let excess: f64 = over.iter().map(|o| o.max(0.0)).sum();
    Eval { cost: total_dist + pen * excess, total_dist, feasible: over.iter().all(|&o| o <= EPS), dist, over }
}

pub fn cost(i: &Inst, s: &[Vec<usize>], pen: f64) -> f64 {
    let mut c = 0.0;
    for r in s {
        c += route_dist(i, r) + pen * (load(i, r) - i.cap).max(0.0);
    }
    c
}

/// Every customer exactly once, nothing else.
pub fn complete(n: usize, s: &[Vec<usize>]) -> bool {
    let mut seen = vec![false; n + 1];
    let mut cnt = 0;
    for r in s {
        for &c in r {
            if c == 0 || c > n || seen[c] {
                return false;
            }
            seen[c] = true;
            cnt += 1;
        }
    }
    cnt == n
}

pub fn is_perm(n: usize, g: &[usize]) -> bool {
    complete(n, &[g.to_vec()])
}

/// All orders of 1..=n.
pub fn perms(n: usize, f: &mut dyn FnMut(&[usize])) {
    let mut p: Vec<usize> = (1..=n).collect();
    fn rec(p: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
        if k == p.len() {
            f(p);
            return;
        }
        for i in k..p.len() {
            p.swap(k, i);
            rec(p, k + 1, f);
            p.swap(k, i);
        }
    }
    rec(&mut p, 0, f);
}

/// All ways to write n as k ordered non-negative parts.
pub fn compositions(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 1 {
        return vec![vec![n]];
    }
    let mut out = vec![];
    for a in 0..=n {
        for mut rest in compositions(n - a, k - 1) {
            let mut v = vec![a];
            v.append(&mut rest);
            out.push(v);
        }
    }
    out
}

/// All assignments of n customers to k ordered route slots, empty slots included.
pub fn all_solutions(n: usize, k: usize, f: &mut dyn FnMut(&Sol)) {
    let comps = compositions(n, k);
    perms(n, &mut |p| {
        for c in &comps {
            let mut s: Sol = Vec::with_capacity(k);
            let mut at = 0;
            for &len in c {
                s.push(p[at..at + len].to_vec());
                at += len;
            }
            f(&s);
        }
    });
}

pub fn solutions(n: usize, k: usize) -> Vec<Sol> {
    let mut v = vec![];
    all_solutions(n, k, &mut |s| v.push(s.clone()));
    v
}

/// Solutions up to the order of routes: first customers increasing, empties last.
pub fn canonical_solutions(n: usize, k: usize) -> Vec<Sol> {
    let mut v = vec![];
    all_solutions(n, k, &mut |s| {
        let ok = s.windows(2).all(|w| match (w[0].first(), w[1].first()) {
            (Some(a), Some(b)) => a < b,
            (None, Some(_)) => false,
            _ => true,
        });
        if ok {
            v.push(s.clone())
        }
    });
    v
}

/// Cyclic integer arc [s, e] on 0..65536.
pub fn arc_has(s: i64, e: i64, a: i64) -> bool {
    let m = 65536;
    let len = (e - s).rem_euclid(m);
    let off = (a - s).rem_euclid(m);
    off <= len
}
/// Do two arcs share an angle? Arcs as unrolled integer intervals.
pub fn arcs_meet(s1: i64, e1: i64, s2: i64, e2: i64) -> bool {
    let m = 65536i64;
    let a1 = s1.rem_euclid(m);
    let b1 = a1 + (e1 - s1).rem_euclid(m);
    let a2 = s2.rem_euclid(m);
    let b2 = a2 + (e2 - s2).rem_euclid(m);
    [-m, 0, m].iter().any(|k| a2 + k <= b1 && a1 <= b2 + k)
}

/// Independent polar angle.
pub fn angle_ok(i: &Inst, node: usize, got: i64) -> bool {
    let dx = i.xy[node].0 - i.xy[0].0;
    let dy = i.xy[node].1 - i.xy[0].1;
    if !(0..65536).contains(&got) {
        return false;
    }
    if dx == 0.0 && dy == 0.0 {
        return true;
    }
    let mut turn = dy.atan2(dx) / (2.0 * std::f64::consts::PI);
    if turn < 0.0 {
        turn += 1.0;
    }
    let want = turn * 65536.0;
    let diff = (got as f64 - want).abs();
    diff.min(65536.0 - diff) <= 0.5 + 1e-6
}

// --- local search moves on plain lists --------------------------------------------------------

/// A node the moves refer to: a customer, or the start depot of a route.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum At {
    Cust(usize),
    Start(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mv {
    RelocateSingle,
    RelocateDouble,
    RelocateDoubleReverse,
    SwapOneWithOne,
    SwapTwoWithOne,
    SwapTwoWithTwo,
    TwoOptIntraReverse,
    TwoOptInterReverse,
    TwoOptInter,
}
pub const NEIGHBOR: [Mv; 9] = [Mv::RelocateSingle, Mv::RelocateDouble, Mv::RelocateDoubleReverse, Mv::SwapOneWithOne, Mv::SwapTwoWithOne, Mv::SwapTwoWithTwo, Mv::TwoOptIntraReverse, Mv::TwoOptInterReverse, Mv::TwoOptInter];
pub const DEPOT: [Mv; 5] = [Mv::RelocateSingle, Mv::RelocateDouble, Mv::RelocateDoubleReverse, Mv::TwoOptInterReverse, Mv::TwoOptInter];
pub const EMPTY: [Mv; 4] = [Mv::RelocateSingle, Mv::RelocateDouble, Mv::RelocateDoubleReverse, Mv::TwoOptInter];

pub fn find(s: &Sol, c: usize) -> (usize, usize) {
    for (r, route) in s.iter().enumerate() {
        if let Some(p) = route.iter().position(|&x| x == c) {
            return (r, p);
        }
    }
    panic!("HARNESS customer {c} not in {s:?}");
}

/// The solution after the move, or None where the move does not apply (overlapping segments,
/// nothing to move, wrong kind of route pair).
pub fn apply(s: &Sol, m: Mv, u: usize, v: At) -> Option<Sol> {
    let (ru, pu) = find(s, u);
    // v as (route, number of customers of the route up to and including v)
    let (rv, cut_v) = match v {
        At::Cust(c) => {
            let (r, p) = find(s, c);
            (r, p + 1)
        }
        At::Start(r) => (r, 0),
    };
    let mut t = s.clone();
    match m {
        Mv::RelocateSingle | Mv::RelocateDouble | Mv::RelocateDoubleReverse => {
            let len = if m == Mv::RelocateSingle { 1 } else { 2 };
            if pu + len > s[ru].len() {
                return None;
            }
            let mut seg: Vec<usize> = s[ru][pu..pu + len].to_vec();
            if let At::Cust(c) = v {
                if seg.contains(&c) {
                    return None;
                }
            }
            // u already directly follows v
            if ru == rv && cut_v == pu {
                return None;
            }
            t[ru].drain(pu..pu + len);
            let at = match v {
                At::Start(_) => 0,
                At::Cust(c) => t[rv].iter().position(|&x| x == c).unwrap() + 1,
            };
            if m == Mv::RelocateDoubleReverse {
                seg.reverse();
            }
            for (k, c) in seg.into_iter().enumerate() {
                t[rv].insert(at + k, c);
            }
            Some(t)
        }
        Mv::SwapOneWithOne | Mv::SwapTwoWithOne | Mv::SwapTwoWithTwo => {
            let c = match v {
                At::Cust(c) => c,
                At::Start(_) => return None,
            };
            let pv = cut_v - 1;
            let (lu, lv) = match m {
                Mv::SwapOneWithOne => (1, 1),
                Mv::SwapTwoWithOne => (2, 1),
                _ => (2, 2),
            };
            if pu + lu > s[ru].len() || pv + lv > s[rv].len() || c == u {
                return None;
            }
            let su = s[ru][pu..pu + lu].to_vec();
            let sv = s[rv][pv..pv + lv].to_vec();
            if ru == rv {
                // overlapping or adjacent segments
                if pu <= pv + lv && pv <= pu + lu {
                    return None;
                }
                let (a, la, b, lb) = if pu < pv { (pu, lu, pv, lv) } else { (pv, lv, pu, lu) };
                let r = &s[ru];
                let mut x = r[..a].to_vec();
                x.extend_from_slice(&r[b..b + lb]);
                x.extend_from_slice(&r[a + la..b]);
                x.extend_from_slice(&r[a..a + la]);
                x.extend_from_slice(&r[b + lb..]);
                t[ru] = x;
            } else {
                t[ru].splice(pu..pu + lu, sv);
                t[rv].splice(pv..pv + lv, su);
            }
            Some(t)
        }
        Mv::TwoOptIntraReverse => {
            if ru != rv {
                return None;
            }
            let pv = match v {
                At::Cust(_) => cut_v - 1,
                At::Start(_) => return None,
            };
            // reverse the stretch after u up to and including v
            if pv <= pu + 1 {
                return None;
            }
            t[ru][pu + 1..=pv].reverse();
            Some(t)
        }
        Mv::TwoOptInterReverse => {
            if ru == rv {
                return None;
            }
            // (.., u) joined with reversed (.., v); reversed tail of u joined with tail of v
            let mut a = s[ru][..=pu].to_vec();
            a.extend(s[rv][..cut_v].iter().rev());
            let mut b: Vec<usize> = s[ru][pu + 1..].iter().rev().cloned().collect();
            b.extend_from_slice(&s[rv][cut_v..]);
            t[ru] = a;
            t[rv] = b;
            Some(t)
        }
        Mv::TwoOptInter => {
            if ru == rv {
                return None;
            }
            let mut a = s[ru][..=pu].to_vec();
            a.extend_from_slice(&s[rv][cut_v..]);
            let mut b = s[rv][..cut_v].to_vec();
            b.extend_from_slice(&s[ru][pu + 1..]);
            t[ru] = a;
            t[rv] = b;
            Some(t)
        }
    }
}

/// Penalized cost restricted to two routes, before and after, for the change of a move.
pub fn delta(i: &Inst, s: &Sol, t: &Sol, pen: f64) -> f64 {
    let mut d = 0.0;
    for (a, b) in s.iter().zip(t) {
        if a != b {
            d += route_dist(i, b) + pen * (load(i, b) - i.cap).max(0.0) - route_dist(i, a) - pen * (load(i, a) - i.cap).max(0.0);
        }
    }
    d
}

/// Best insertion cost of c into route r (any position).
pub fn best_insert(i: &Inst, r: &[usize], c: usize) -> f64 {
    let mut best = f64::INFINITY;
    for p in 0..=r.len() {
        let a = if p == 0 { 0 } else { r[p - 1] };
        let b = if p == r.len() { 0 } else { r[p] };
        let base = if a == b { 0.0 } else { i.d(a, b) };
        best = best.min(i.d(a, c) + i.d(c, b) - base);
    }
    best
}

/// Best change over all exchanges of one customer of each route (each reinserted at its best place)
/// and all one-way relocations between the two routes. INFINITY if there is none.
pub fn best_swap_star(i: &Inst, r1: &[usize], r2: &[usize], pen: f64) -> f64 {
    let (l1, l2) = (load(i, r1), load(i, r2));
    let p = |l: f64| pen * (l - i.cap).max(0.0);
    let (d1, d2) = (route_dist(i, r1), route_dist(i, r2));
    let old = d1 + d2 + p(l1) + p(l2);
    let mut best = f64::INFINITY;
    let without = |r: &[usize], k: usize| -> Vec<usize> { r.iter().enumerate().filter(|(x, _)| *x != k).map(|(_, &c)| c).collect() };
    for a in 0..r1.len() {
        let w1 = without(r1, a);
        let dw1 = route_dist(i, &w1);
        let u = r1[a];
        for b in 0..r2.len() {
            let w2 = without(r2, b);
            let v = r2[b];
            let new = dw1 + best_insert(i, &w1, v) + route_dist(i, &w2) + best_insert(i, &w2, u) + p(l1 - i.dem[u] + i.dem[v]) + p(l2 + i.dem[u] - i.dem[v]);
            best = best.min(new - old);
        }
        let new = dw1 + d2 + best_insert(i, r2, u) + p(l1 - i.dem[u]) + p(l2 + i.dem[u]);
        best = best.min(new - old);
    }
    for b in 0..r2.len() {
        let w2 = without(r2, b);
        let v = r2[b];
        let new = d1 + best_insert(i, r1, v) + route_dist(i, &w2) + p(l1 + i.dem[v]) + p(l2 - i.dem[v]);
        best = best.min(new - old);
    }
    best
}

/// Diversity distance by its definition: shared adjacencies, the depot counting as a neighbour.
pub fn broken_pairs(a: &Sol, b: &Sol, n: usize) -> i64 {
    let mut adj = vec![(0usize, 0usize); n + 1];
    for r in b {
        for (p, &c) in r.iter().enumerate() {
            let pr = if p == 0 { 0 } else { r[p - 1] };
            let nx = if p + 1 == r.len() { 0 } else { r[p + 1] };
            adj[c] = (pr, nx);
        }
    }
    let mut d = 0;
    for r in a {
        for (p, &c) in r.iter().enumerate() {
            let nx = if p + 1 == r.len() { 0 } else { r[p + 1] };
            if nx != adj[c].0 && nx != adj[c].1 {
                d += 1;
            }
            if p == 0 && adj[c].0 != 0 && adj[c].1 != 0 {
                d += 1;
            }
        }
    }
    d
}

/// Cheapest way to cut the tour into at most k routes; `bound`: largest load of a route allowed.
pub fn best_split(i: &Inst, tour: &[usize], pen: f64, k: usize, bound: f64) -> f64 {
    let n = tour.len();
    let mut best = vec![f64::INFINITY; n + 1];
    best[0] = 0.0;
    for _ in 0..k {
        let mut next = best.clone();
        for a in 0..n {
            if best[a].is_infinite() {
                continue;
            }
            let mut dist = i.d(0, tour[a]);
            let mut ld = 0.0;
            for b in a..n {
                if b > a {
                    dist += i.d(tour[b - 1], tour[b]);
                }
                ld += i.dem[tour[b]];
                if ld > bound + EPS {
                    break;
                }
                let c = best[a] + dist + i.d(tour[b], 0) + pen * (ld - i.cap).max(0.0);
                if c < next[b + 1] {
                    next[b + 1] = c;
                }
            }
        }
        best = next;
    }
    best[n]
}

/// Smallest number of bins for the demands (exact, small inputs).
pub fn min_bins(dem: &[f64], cap: f64) -> usize {
    let mut d: Vec<f64> = dem.iter().cloned().filter(|&x| x > 0.0).collect();
    d.sort_by(|a, b| b.partial_cmp(a).unwrap());
    if d.is_empty() {
        return 0;
    }
    let mut sizes = d.clone();
    sizes.dedup();
    if sizes.len() <= 2 {
        // Vehicles needed for every number of large and small demands.
        let (x, y) = (sizes[0], *sizes.last().unwrap());
        let nx = d.iter().filter(|v| **v == x).count();
        let ny = d.len() - nx;
        let mut best = vec![vec![usize::MAX; ny + 1]; nx + 1];
        best[0][0] = 0;
        for i in 0..=nx {
            for j in 0..=ny {
                for a in 0..=i {
                    for b in 0..=j {
                        let load = a as f64 * x + b as f64 * y;
                        if a + b > 0 && (a + b == 1 || load <= cap + 1e-9) {
                            best[i][j] = best[i][j].min(best[i - a][j - b] + 1);
                        }
                        if load > cap + 1e-9 {
                            break;
                        }
                    }
                }
            }
        }
        return best[nx][ny];
    }
    fn rec(d: &[f64], k: usize, bins: &mut Vec<f64>, cap: f64, best: &mut usize) {
        if bins.len() >= *best {
            return;
        }
        if k == d.len() {
            *best = bins.len();
            return;
        }
        let mut seen: Vec<f64> = vec![];
        for b in 0..bins.len() {
            if bins[b] + d[k] <= cap + 1e-9 && !seen.iter().any(|&x| (x - bins[b]).abs() < 1e-12) {
                seen.push(bins[b]);
                bins[b] += d[k];
                rec(d, k + 1, bins, cap, best);
                bins[b] -= d[k];
            }
        }
        bins.push(d[k]);
        rec(d, k + 1, bins, cap, best);
        bins.pop();
    }
    let mut best = d.len() + 1;
    rec(&d, 0, &mut vec![], cap, &mut best);
    best
}

/// Set partitions of 1..=n into at most k blocks (as route sets), for brute-force optima.
pub fn optimal_cost(i: &Inst, k: usize) -> f64 {
    let n = i.n();
    let full = 1usize << n;
    // cheapest feasible route per subset
    let mut tour = vec![f64::INFINITY; full];
    // dp over (subset, last)
    let mut dp = vec![vec![f64::INFINITY; n]; full];
    for c in 0..n {
        dp[1 << c][c] = i.d(0, c + 1);
    }
    for s in 1..full {
        for l in 0..n {
            if dp[s][l].is_finite() {
                let v = dp[s][l];
                if v + i.d(l + 1, 0) < tour[s] {
                    tour[s] = v + i.d(l + 1, 0);
                }
                for c in 0..n {
                    if s & (1 << c) == 0 {
                        let t = s | (1 << c);
                        let w = v + i.d(l + 1, c + 1);
                        if w < dp[t][c] {
                            dp[t][c] = w;
                        }
                    }
                }
            }
        }
        let ld: f64 = (0..n).filter(|c| s & (1 << c) != 0).map(|c| i.dem[c + 1]).sum();
        if ld > i.cap + EPS {
            tour[s] = f64::INFINITY;
        }
    }
    let mut best = vec![f64::INFINITY; full];
    best[0] = 0.0;
    for _ in 0..k {
        let prev = best.clone();
        for s in 1..full {
            let low = s & s.wrapping_neg();
            let mut sub = s;
            while sub > 0 {
                if sub & low != 0 && prev[s ^ sub] + tour[sub] < best[s] {
                    best[s] = prev[s ^ sub] + tour[sub];
                }
                sub = (sub - 1) & s;
            }
        }
    }
    best[full - 1]
}
