//! What a run prints on standard output, with and without the dimacs feature.
use super::parse::scratch;
use super::procs;
use super::serial::{expected, read};
use super::*;
use crate::clock;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst};
use crate::oracle::{self, Policy};
use crate::refm;
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, GeneticAlgorithm};
use hybridcvrp::solver::{Context, Metaheuristic};
use hybridcvrp::utils::write_solution_file;
use std::path::PathBuf;

pub static ENGINE: Engine = Engine { name: "dimacs", tags: &["C24"], units };
const P: &[&str] = &["C24"];

/// Splits what was printed into solutions (each up to and including its cost line).
fn blocks(t: &str) -> Result<Vec<String>, String> {
    let mut v = vec![];
    let mut cur = String::new();
    for l in t.split_inclusive('\n') {
        cur += l;
        if l.starts_with("Cost ") {
            v.push(std::mem::take(&mut cur));
        }
    }
    if cur.is_empty() {
        Ok(v)
    } else {
        Err(format!("printed {:?} after the last solution", cur.chars().take(200).collect::<String>()))
    }
}

/// One printed solution on its own: form, completeness, capacity, and its cost up to rounding.
fn judge_block(inst: &Inst, b: &str, fleet: usize) -> Result<f64, String> {
    let Some((routes, cost)) = read(b) else { return Err(format!("printed {:?}, not a solution", b.chars().take(200).collect::<String>())) };
    if !refm::complete(inst.n(), &routes) || routes.len() > fleet {
        return Err(format!("printed incomplete {routes:?}"));
    }
    if let Some(r) = routes.iter().find(|r| refm::load(inst, r) > inst.cap + 2e-6) {
        return Err(format!("printed overloaded route {r:?}"));
    }
    let d: f64 = routes.iter().map(|r| refm::route_dist(inst, r)).sum();
    if !expected(&routes, d).iter().any(|e| e == b) {
        return Err(format!("printed {b:?} but the routes are {d} long (cost {cost})"));
    }
    Ok(d)
}

fn insts() -> Vec<Inst> {
    let mut v = vec![];
    for n in [1, 2, 3, 4, 6, 9] {
        v.extend(family(n));
    }
    for (n, k) in [(14, 0), (20, 1), (26, 2), (30, 3)] {
        v.push(large(n, k));
    }
    v
}

type Set = fn(&mut Config);
fn vars() -> Vec<(&'static str, Set)> {
    super::ga::variants().into_iter().map(|v| (v.name, v.f)).collect()
}

struct Probe {
    at: usize,
    out: PathBuf,
    sol: PathBuf,
    runs: u64,
    steps: u64,
}

impl Probe {
    fn text(&self) -> String {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        String::from_utf8_lossy(&std::fs::read(&self.out).expect("HARNESS stdout")[self.at..]).to_string()
    }

    fn run(&mut self, inst: &Inst, f: &dyn Fn(&mut Config), decomposed: bool, calls: u64) -> Result<(), String> {
        self.runs += 1;
        self.at += self.text().len();
        crate::hash::salt(9);
        clock::start(1_000_000_000, 0, vec![]);
        let sol = self.sol.to_str().unwrap().to_string();
        let _ = std::fs::remove_file(&self.sol);
        let ctx: Box<Context> = inst.ctx_with(|c| {
            super::ga::small(c);
            f(c);
            c.solution_path = Some(sol);
            if decomposed {
                c.max_iterations = None;
                c.decomposed_problem_min_size = 1 + inst.n() as u64 / 2;
                c.rr_gamma = 0.2;
            }
        });
        let k = ctx.config.borrow().num_vehicles as usize;
        // Solutions as recorded; routes where they are still known.
        let mut rec: Vec<(f64, Option<Sol>)> = vec![];
        let mut late: Option<String> = None;
        let (out, at) = (self.out.clone(), self.at);
        let mut look = |ctx: &Context| {
            let h = ctx.search_history.borrow();
            let e = h.entries();
            let before = rec.len();
            for x in e.iter().skip(rec.len()) {
                rec.push((x.solution.cost, if x.solution.routes.is_empty() { None } else { Some(x.solution.routes.clone()) }));
            }
            // Whoever reads the stream has them by now.
            if cfg!(feature = "dimacs") && rec.len() > before && late.is_none() {
                let t = std::fs::read(&out).expect("HARNESS stdout");
                let shown = String::from_utf8_lossy(&t[at.min(t.len())..]).lines().filter(|l| l.starts_with("Cost ")).count();
                if shown != rec.len() {
                    late = Some(format!("{} solutions are recorded but {shown} have been printed so far", rec.len()));
                }
            }
        };
        if decomposed {
            let mut m = DecomposedGeneticAlgorithm::new(&ctx);
            for c in 0..calls {
                if c > 0 {
                    clock::set_step(30_000_000_000_000);
                }
                m.iterate(&ctx);
                clock::set_step(0);
                look(&ctx);
                self.steps += 1;
            }
        } else {
            let mut m = GeneticAlgorithm::new(&ctx);
            let mut n = 0;
            while !m.terminated() && n < 1_000_000 {
                m.iterate(&ctx);
                n += 1;
                look(&ctx);
                self.steps += 1;
            }
        }
        clock::clear();
        write_solution_file(&ctx);
        let t = self.text();
        if !cfg!(feature = "dimacs") {
            return if t.is_empty() { Ok(()) } else { Err(format!("without the feature {:?} is printed", t.chars().take(300).collect::<String>())) };
        }
        if let Some(l) = late {
            return Err(l);
        }
        let b = blocks(&t)?;
        if b.len() != rec.len() {
            return Err(format!("{} solutions were printed, {} recorded", b.len(), rec.len()));
        }
        let mut last = f64::INFINITY;
        for (i, (cost, routes)) in rec.iter().enumerate() {
            let d = judge_block(inst, &b[i], k)?;
            if !refm::close(d, *cost) {
                return Err(format!("solution {i} costs {d} as printed and {cost} as recorded"));
            }
            if d >= last {
                return Err(format!("solution {i} costs {d} after {last}"));
            }
            last = d;
            if let Some(r) = routes {
                if !expected(r, *cost).contains(&b[i]) {
                    return Err(format!("solution {i} was recorded as {r:?} and printed as {:?}", b[i]));
                }
            }
        }
        let file = std::fs::read_to_string(&self.sol).unwrap_or_default();
        let end = b.last().cloned().unwrap_or_default();
        if file != end {
            return Err(format!("the solution file holds {file:?}, the last one printed was {end:?}"));
        }
        Ok(())
    }
}

/// Child process: standard output is a file that this process looks at after every run.
/// Findings go to standard error.
pub fn probe(spec: &str) -> i32 {
    let f: Vec<&str> = spec.split('|').collect();
    let p: Vec<usize> = f[0].split(',').filter_map(|x| x.parse().ok()).collect();
    let (i, vi, decomposed, streams, horizon) = (p[0], p[1], p[2] == 1, p[3], p[4]);
    let mut pr = Probe { at: 0, out: f[1].into(), sol: PathBuf::from(f[1]).with_extension("sol"), runs: 0, steps: 0 };
    let inst = &insts()[i];
    let (vn, set) = vars()[vi];
    let mut bad = 0;
    std::panic::set_hook(Box::new(|_| ()));
    let mut say = |r: std::thread::Result<Result<(), String>>, how: String| -> bool {
        let e = match r {
            Ok(Ok(())) => return true,
            Ok(Err(e)) => e,
            Err(p) => format!("panic: {}", crate::core::panic_text(&p)),
        };
        bad += 1;
        eprintln!("BAD {e}: {} settings {vn} decomposed {decomposed} {how}", inst.describe());
        bad < 3
    };
    let pols: Vec<Policy> = [Policy::First, Policy::Last].into_iter().chain((1..=streams as u64).map(Policy::Stream)).collect();
    for pol in pols {
        let st = oracle::install(vec![], pol, &oracle::REALS, 0);
        st.borrow_mut().limit = 2_000_000_000;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pr.run(inst, &set, decomposed, 3)));
        oracle::clear();
        if !say(r, format!("draws {pol:?}")) {
            break;
        }
    }
    if horizon > 0 {
        oracle::explore(Policy::Stream(5), &oracle::REALS, horizon, Some(1), 5000, |st| {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pr.run(inst, &set, decomposed, 3)));
            let how = format!("draws {:?}", st.borrow().prefix);
            say(r, how)
        });
    }
    eprintln!("DONE {} {}", pr.runs, pr.steps);
    0
}

fn plain_dir() -> Option<PathBuf> {
    std::env::var_os("MC_PLAIN").map(PathBuf::from)
}

fn child(rec: &mut Rec, dir_of: Option<PathBuf>, name: &str, i: usize, vi: usize, dec: bool, streams: usize, horizon: usize) {
    rec.tick();
    let dir = scratch(name);
    let exe = match &dir_of {
        Some(d) => d.join("mc"),
        None => procs::sibling("mc"),
    };
    let spec = format!("{i},{vi},{},{streams},{horizon}|{}", dec as u8, dir.join(".out").display());
    let slot_tick = || ();
    let _ = slot_tick;
    let r = procs::run(&exe, &[], &[("MC_DIMPROBE", &spec)], &dir, 120.0, &mut || ());
    rec.tick();
    let with = dir_of.is_none() && cfg!(feature = "dimacs");
    let done = r.err.lines().find_map(|l| l.strip_prefix("DONE ")).map(|d| d.split(' ').filter_map(|x| x.parse::<u64>().ok()).collect::<Vec<_>>());
    for l in r.err.lines().filter(|l| l.starts_with("BAD ")).take(2) {
        rec.fail(P, || format!("(feature {with}) {}", &l[4..]));
    }
    match done {
        Some(d) if d.len() == 2 => {
            rec.states += d[1];
            rec.transitions += r.out.lines().count() as u64;
            rec.traces += d[0];
        }
        _ => {
            rec.fail(P, || format!("(feature {with}) the run ended with {:?}{}: instance {i} settings {vi} decomposed {dec} {}", r.code, if r.killed { " (no end)" } else { "" }, r.err.chars().take(300).collect::<String>()));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// The program itself.
fn program(rec: &mut Rec, bin: PathBuf, with: bool, n: usize, kind: usize, dec: bool, name: &str) {
    rec.tick();
    let dir = scratch(name);
    let inst = large(n, kind);
    std::fs::write(dir.join("i.vrp"), procs::text(&inst)).expect("HARNESS");
    let stop = if dec { "time_limit: 1\ndecompose_limit: 3\ndecomposed_problem_min_size: 5\n" } else { "max_iterations: 15\ntime_limit: 100000\n" };
    let yaml = format!("deterministic: true\nseed: {n}\ninitial_individuals: 6\nmin_population_size: 4\npopulation_lambda: 4\nrr_gamma: 0.2\nround_distances: {}\nsolution_path: my.sol\n{stop}", inst.rounded);
    std::fs::write(dir.join("config.yml"), &yaml).expect("HARNESS");
    for log in [None, Some("trace"), Some("off")] {
    let env: Vec<(&str, &str)> = log.iter().map(|l| ("RUST_LOG", *l)).collect();
    rec.states += 1;
    rec.traces += 1;
    let r = procs::run(&bin, &["i.vrp"], &env, &dir, 100.0, &mut || ());
    rec.tick();
    let what = || format!("program (feature {with}, RUST_LOG {log:?}) {n} customers shape {kind} {yaml:?}");
    let file = std::fs::read_to_string(dir.join("my.sol")).unwrap_or_default();
    let res: Result<(), String> = (|| {
        if r.killed || r.code != Some(0) {
            return Err(format!("exit {:?} {}", r.code, r.err.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>()));
        }
        let k = inst.n();
        judge_block(&inst, &file, k).map_err(|e| format!("solution file: {e}"))?;
        if !with {
            return if r.out.is_empty() { Ok(()) } else { Err(format!("printed {:?}", r.out.chars().take(300).collect::<String>())) };
        }
        let b = blocks(&r.out)?;
        let mut last = f64::INFINITY;
        for x in &b {
            let d = judge_block(&inst, x, k)?;
            if d >= last {
                return Err(format!("printed {d} after {last}"));
            }
            last = d;
        }
        if b.last() != Some(&file) {
            return Err(format!("the file holds {file:?}, the last one printed was {:?}", b.last()));
        }
        Ok(())
    })();
    if let Err(e) = res {
        rec.fail(P, || format!("{e}: {}", what()));
    }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    let all = insts();
    for (i, inst) in all.iter().enumerate() {
        let n = inst.n();
        for (vi, (vn, _)) in vars().into_iter().enumerate() {
            let deep = n <= 3 && n > 1 && (th || vi < 3);
            if !th && !deep && (i + vi) % 4 != 0 {
                continue;
            }
            let h = if deep { if th { 60 } else { 20 } } else { 0 };
            let name = format!("run/{}{n}/{vn}", inst.name);
            v.push(unit(name.clone(), move |rec| child(rec, None, &format!("dim-{i}-{vi}"), i, vi, false, if th { 12 } else { 4 }, h)));
            if (i + vi) % 6 == 0 {
                v.push(unit(format!("{name}/without"), move |rec| {
                    if let Some(d) = plain_dir() {
                        child(rec, Some(d), &format!("pl-{i}-{vi}"), i, vi, false, 2, 0);
                    }
                }));
            }
        }
        let step = if th { 1 } else { 3 };
        if i % step == 0 {
            for vi in [0usize, 4].into_iter().take(if th { 2 } else { 1 }) {
                v.push(unit(format!("decomposed/{}{n}/{vi}", inst.name), move |rec| child(rec, None, &format!("dimd-{i}-{vi}"), i, vi, true, if th { 3 } else { 1 }, 0)));
            }
        }
        if i % 9 == 0 {
            v.push(unit(format!("decomposed/{}{n}/without", inst.name), move |rec| {
                if let Some(d) = plain_dir() {
                    child(rec, Some(d), &format!("pld-{i}"), i, 0, true, 1, 0);
                }
            }));
        }
    }
    for (k, (n, kind, dec)) in [(12usize, 0usize, false), (30, 1, false), (25, 2, false), (16, 3, true), (24, 1, true)].into_iter().enumerate() {
        v.push(unit(format!("program/{k}"), move |rec| program(rec, procs::sibling("hybridcvrp_bin"), cfg!(feature = "dimacs"), n, kind, dec, &format!("prog{k}"))));
        v.push(unit(format!("program/{k}/without"), move |rec| {
            if let Some(d) = plain_dir() {
                program(rec, d.join("hybridcvrp_bin"), false, n, kind, dec, &format!("plprog{k}"));
            }
        }));
    }
    v
}
