//! Instances: built in memory, with their own (independent) distance function.
use hybridcvrp::config::Config;
use hybridcvrp::models::{Coordinate, Node, ProblemBuilder, Vehicle};
use hybridcvrp::solver::Context;
use hybridcvrp::utils::ProblemParser;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Inst {
    pub name: String,
    /// Depot first.
    pub xy: Vec<(f64, f64)>,
    /// Depot first (0).
    pub dem: Vec<f64>,
    pub cap: f64,
    pub rounded: bool,
    pub size_limit: u64,
    /// Lower rows: row i (0-based) has the distances of location i+1 to locations 0..=i.
    pub lower: Option<Vec<Vec<f64>>>,
}

impl Inst {
    pub fn n(&self) -> usize {
        self.xy.len() - 1
    }
    /// Reference distance.
    pub fn d(&self, i: usize, j: usize) -> f64 {
        if i == j && self.lower.is_some() {
            return 0.0;
        }
        let raw = match &self.lower {
            Some(l) => {
                let (a, b) = if i > j { (i, j) } else { (j, i) };
                l[a - 1][b]
            }
            None => {
                let dx = self.xy[i].0 - self.xy[j].0;
                let dy = self.xy[i].1 - self.xy[j].1;
                (dx * dx + dy * dy).sqrt()
            }
        };
        if self.rounded {
            round_half_away(raw)
        } else {
            raw
        }
    }
    /// Exact Euclidean (triangle inequality holds)?
    pub fn metric(&self) -> bool {
        self.lower.is_none() && !self.rounded
    }
    pub fn config(&self) -> Config {
        let mut c = Config::default();
        c.deterministic = true;
        c.seed = 1;
        c.round_distances = self.rounded;
        c.precompute_distance_size_limit = self.size_limit;
        c
    }
    pub fn parser(&self) -> ProblemParser {
        let nodes: Vec<Node> = self
            .xy
            .iter()
            .zip(&self.dem)
            .enumerate()
            .map(|(i, (&(x, y), &d))| Node { id: i + 1, coord: Coordinate { lng: x, lat: y }, demand: d })
            .collect();
        let mut p = ProblemParser::new();
        p.problem = Some(ProblemBuilder::new(nodes, Vehicle { id: 0, cap: self.cap }).build());
        p.matrix = self.lower.clone();
        p
    }
    pub fn ctx_with(&self, f: impl FnOnce(&mut Config)) -> Box<Context> {
        let mut c = self.config();
        f(&mut c);
        Box::new(Context::new(self.parser(), c, Instant::now()))
    }
    pub fn ctx(&self) -> Box<Context> {
        self.ctx_with(|_| ())
    }
    /// Context with exactly k route slots and the given penalty.
    pub fn ctx_k(&self, k: usize, pen: f64, f: impl FnOnce(&mut Config)) -> Box<Context> {
        let c = self.ctx_with(f);
        {
            let mut cfg = c.config.borrow_mut();
            cfg.num_vehicles = k as u64;
            cfg.penalty_capacity = pen;
        }
        c
    }
    pub fn describe(&self) -> String {
        format!("{}{{xy:{:?} dem:{:?} cap:{} rounded:{} size_limit:{} lower:{:?}}}", self.name, self.xy, self.dem, self.cap, self.rounded, self.size_limit, self.lower)
    }
    pub fn with(&self, name: &str, f: impl FnOnce(&mut Inst)) -> Inst {
        let mut i = self.clone();
        i.name = name.to_string();
        f(&mut i);
        i
    }
}

pub fn round_half_away(x: f64) -> f64 {
    let f = x.floor();
    if x - f >= 0.5 {
        f + 1.0
    } else {
        f
    }
}

/// A small fixed pseudo random stream for building structured instances.
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
}

fn base(name: &str, xy: &[(f64, f64)], dem: &[f64], cap: f64) -> Inst {
    let mut d = vec![0.0];
    d.extend_from_slice(dem);
    Inst { name: name.into(), xy: xy.to_vec(), dem: d, cap, rounded: false, size_limit: 2000, lower: None }
}

/// Hand-picked instance shapes, cut to n customers (n <= 9).
pub fn family(n: usize) -> Vec<Inst> {
    let mut v = vec![];
    let cut = |i: Inst| -> Inst {
        let mut i = i;
        i.xy.truncate(n + 1);
        i.dem.truncate(n + 1);
        if let Some(l) = i.lower.as_mut() {
            l.truncate(n);
        }
        i
    };
    // Generic position, distinct demands.
    let gen = base("generic", &[(0.3, 0.1), (10.0, 2.5), (-3.1, 7.7), (4.4, -8.2), (-6.5, -5.5), (7.3, 9.1), (-9.4, 1.6), (1.2, 12.9), (13.0, -3.3), (-2.2, -11.7)], &[3.0, 5.0, 2.0, 4.0, 1.0, 6.0, 2.0, 3.0, 5.0], 9.0);
    v.push(cut(gen.clone()));
    // Integer distances, unit demands, tight capacity: overload in most cuts.
    v.push(cut(gen.with("generic_rounded_tight", |i| {
        i.rounded = true;
        i.cap = 6.0;
    })));
    // Ties: square grid, coincident customers, one at the depot, zero demands.
    let grid = base("grid_ties_zero", &[(0.0, 0.0), (1.0, 0.0), (1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, 0.0), (0.0, -1.0), (1.0, 1.0), (-1.0, -1.0), (2.0, 0.0)], &[1.0, 0.0, 2.0, 1.0, 0.0, 2.0, 1.0, 1.0, 0.0], 3.0);
    v.push(cut(grid));
    // Around the positive x axis: angles at and on both sides of zero.
    let ray = base("ray_angle_zero", &[(5.0, 5.0), (9.0, 5.0), (10.0, 5.001), (11.0, 4.999), (7.0, 6.0), (8.0, 4.0), (6.0, 5.0), (5.0, 9.0), (1.0, 5.0), (5.0, 1.0)], &[2.0, 2.0, 2.0, 1.0, 1.0, 3.0, 1.0, 1.0, 1.0], 4.0);
    v.push(cut(ray));
    // Fractional demands filling vehicles exactly; distances computed on demand.
    let frac = base("frac_ondemand", &[(-1.5, 2.25), (3.75, 2.25), (-1.5, 6.5), (-5.25, -0.5), (0.125, -4.0), (2.0, 5.0), (-4.0, 4.0), (6.0, -2.0), (-2.0, -6.0), (1.0, 1.0)], &[0.5, 1.25, 0.75, 2.5, 1.25, 0.25, 0.5, 1.0, 1.5], 2.5);
    v.push(cut(frac.with("frac_ondemand", |i| i.size_limit = 0)));
    // Explicit lower rows, not Euclidean, breaking the triangle inequality; fractional entries.
    let lower: Vec<Vec<f64>> = (1..10usize).map(|i| (0..i).map(|j| [3.0, 7.5, 1.0, 9.0, 4.25, 6.0, 2.0, 8.0][(i * 5 + j * 3 + i * j) % 8] + (i + j) as f64 * 0.25).collect()).collect();
    v.push(cut(gen.with("explicit", |i| i.lower = Some(lower.clone()))));
    v.push(cut(gen.with("explicit_rounded", |i| {
        i.lower = Some(lower.clone());
        i.rounded = true;
        i.cap = 7.0;
    })));
    // Loads that exceed the capacity by a hair, or fill it exactly.
    v.push(cut(gen.with("hairline", |i| {
        i.dem = vec![0.0, 500.0005, 300.0, 500.0, 200.0, 400.0, 100.0, 300.0, 500.0, 200.0];
        i.cap = 1000.0;
    })));
    v
}

/// Larger structured instances: points on spirals/clusters with a fixed pattern.
pub fn large(n: usize, kind: usize) -> Inst {
    let mut r = Lcg(1000 + kind as u64 * 77 + n as u64);
    let mut xy = vec![(500.0, 500.0)];
    let mut dem = vec![0.0];
    for i in 0..n {
        match kind % 4 {
            0 => {
                xy.push((r.below(1000) as f64, r.below(1000) as f64));
                dem.push(1.0 + r.below(20) as f64);
            }
            1 => {
                // clusters with ties and coincident points
                let c = i % 5;
                xy.push(((c * 180 + r.below(4)) as f64, ((c * 77) % 300 + r.below(4)) as f64));
                dem.push(r.below(6) as f64);
            }
            2 => {
                let a = i as f64 * 0.7;
                xy.push((500.0 + a * 9.0 * a.cos(), 500.0 + a * 9.0 * a.sin()));
                dem.push(0.25 * (1 + r.below(17)) as f64);
            }
            _ => {
                xy.push(((i % 12) as f64 * 10.0, (i / 12) as f64 * 10.0));
                dem.push((1 + i % 7) as f64);
            }
        }
    }
    let tot: f64 = dem.iter().sum();
    let maxd = dem.iter().cloned().fold(0.0, f64::max);
    let cap = (tot / 3.3).min(40.0).max(maxd).max(1.0).ceil();
    Inst { name: format!("large{n}k{kind}"), xy, dem, cap, rounded: kind % 2 == 0, size_limit: if kind % 3 == 2 { 0 } else { 2000 }, lower: None }
}
