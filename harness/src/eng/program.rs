//! Whole runs of the real program: instance file in, solution file out.
use super::parse::scratch;
use super::procs;
use super::serial::{expected, read};
use super::*;
use crate::core::{unit, Unit};
use crate::inst::{family, large, Inst};
use crate::refm;

pub static ENGINE: Engine = Engine { name: "program", tags: &["C01", "C02", "C08"], units };
const SOL: &[&str] = &["C01"];
const COST: &[&str] = &["C02"];
const FILE: &[&str] = &["C08"];

/// Runs the program and judges the file it leaves.
fn run(rec: &mut Rec, name: &str, inst: &Inst, text: &str, yaml: &str, args: &[&str]) {
    rec.states += 1;
    rec.traces += 1;
    rec.transitions += 1;
    rec.tick();
    let dir = scratch(name);
    std::fs::write(dir.join("i.vrp"), text).expect("HARNESS");
    std::fs::write(dir.join("config.yml"), yaml).expect("HARNESS");
    // An older, longer solution is in the way.
    std::fs::write(dir.join("s.sol"), "Route #1: 1 2 3\nCost 99999\n".repeat(300)).expect("HARNESS");
    let mut a = vec!["i.vrp", "-o", "s.sol"];
    a.extend_from_slice(args);
    let r = procs::run(&procs::sibling("hybridcvrp_bin"), &a, &[], &dir, 120.0, &mut || ());
    rec.tick();
    let what = || format!("program {name}, {} customers, config {yaml:?}, arguments {args:?}", inst.n());
    let all: &[&str] = &["C01", "C02", "C08"];
    let file = std::fs::read_to_string(dir.join("s.sol")).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    if !rec.check(r.code == Some(0), all, || format!("exit {:?} {}: {}", r.code, r.err.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>(), what())) {
        return;
    }
    // No run is bound to find a feasible solution; the log tells of those that were found.
    if file.is_empty() && !r.err.contains("New best") {
        return;
    }
    let Some((routes, cost)) = read(&file) else {
        rec.fail(all, || format!("the solution file holds {:?}: {}", file.chars().take(400).collect::<String>(), what()));
        return;
    };
    rec.check(refm::complete(inst.n(), &routes), SOL, || format!("the solution file's routes {routes:?} are not a partition of the customers: {}", what()));
    for r in &routes {
        let l: f64 = r.iter().filter(|&&c| c <= inst.n()).map(|&c| inst.dem[c]).sum();
        rec.check(l <= inst.cap + 2e-6, SOL, || format!("route {r:?} of the solution file carries {l}, capacity {}: {}", inst.cap, what()));
    }
    if refm::complete(inst.n(), &routes) {
        let d: f64 = routes.iter().map(|r| refm::route_dist(inst, r)).sum();
        rec.check((d - cost as f64).abs() <= 0.5 + 1e-6 * (1.0 + d), COST, || format!("the file says {cost}, its routes are {d} long: {}", what()));
        rec.check(expected(&routes, d).contains(&file), FILE, || format!("the file is {file:?}: {}", what()));
    }
}

/// A TSPLIB file with coordinates, read by hand.
pub fn load(path: &str, rounded: bool) -> Option<Inst> {
    let t = std::fs::read_to_string(path).ok()?;
    let (mut xy, mut dem, mut cap, mut mode) = (vec![], vec![], 0.0, 0);
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.as_slice() {
            ["CAPACITY", ":", c] => cap = c.parse().ok()?,
            ["NODE_COORD_SECTION"] => mode = 1,
            ["DEMAND_SECTION"] => mode = 2,
            ["DEPOT_SECTION"] => mode = 3,
            [_, x, y] if mode == 1 => xy.push((x.parse().ok()?, y.parse().ok()?)),
            [_, d] if mode == 2 => dem.push(d.parse().ok()?),
            _ => (),
        }
    }
    if xy.len() < 2 || xy.len() != dem.len() {
        return None;
    }
    Some(Inst { name: "file".into(), xy, dem, cap, rounded, size_limit: 2000, lower: None })
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    let mut insts: Vec<Inst> = vec![];
    for n in [1, 2, 4, 7, 9] {
        insts.extend(family(n).into_iter().filter(|i| i.lower.is_none()));
    }
    for (n, k) in [(15, 0), (25, 1), (35, 2), (60, 3)] {
        insts.push(large(n, k));
    }
    let confs: [&'static str; 4] = [
        "max_iterations: 30\n",
        "max_iterations: 16\nelite_education: true\nelite_education_gamma: 20\n",
        "max_iterations: 8\nrr_mutation: false\nlocal_search_granularity: 3\n",
        "max_iterations: 1\n",
    ];
    for (i, inst) in insts.into_iter().enumerate() {
        for (ci, c) in confs.into_iter().enumerate() {
            for det in [true, false] {
                if !th && (i + ci + det as usize) % 4 != 0 {
                    continue;
                }
                let inst = inst.clone();
                v.push(unit(format!("run/{}{}/{ci}{det}", inst.name, inst.n()), move |rec| {
                    let yaml = format!("deterministic: {det}\nseed: {i}\ninitial_individuals: 8\nmin_population_size: 5\npopulation_lambda: 5\ntime_limit: 100000\nprecompute_distance_size_limit: {}\n{c}", inst.size_limit);
                    let r = if inst.rounded { "true" } else { "false" };
                    run(rec, &format!("p{i}-{ci}{det}"), &inst, &procs::text(&inst), &yaml, &["-r", r]);
                }));
            }
        }
        // Decomposed: only the clock ends it.
        if inst.n() > 1 && (th || i % 8 == 0) {
            let inst = inst.clone();
            v.push(unit(format!("decomposed/{}{}", inst.name, inst.n()), move |rec| {
                let yaml = format!("deterministic: true\nseed: {i}\ninitial_individuals: 8\nmin_population_size: 5\npopulation_lambda: 5\ndecompose_limit: 2\ndecomposed_problem_min_size: {}\ntime_limit: 1\n", 1 + inst.n() / 2);
                let r = if inst.rounded { "true" } else { "false" };
                run(rec, &format!("pd{i}"), &inst, &procs::text(&inst), &yaml, &["-r", r]);
            }));
        }
    }
    // The instance and the settings that come with the program.
    let repo = std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into());
    for (k, r) in ["true", "false"].into_iter().enumerate() {
        let repo = repo.clone();
        v.push(unit(format!("shipped/{r}"), move |rec| {
            let p = format!("{repo}/instances/X-n101-k25.vrp");
            let Some(inst) = load(&p, r == "true") else { return };
            let text = std::fs::read_to_string(&p).expect("HARNESS");
            let conf = std::fs::read_to_string(format!("{repo}/config.yml")).expect("HARNESS");
            run(rec, &format!("shipped{k}"), &inst, &text, &conf, &["-r", r, "-t", if rec.tier == Tier::Thorough { "10" } else { "3" }]);
            let conf = format!("{conf}\n").replace("decompose_limit: 3000", "decompose_limit: 50").replace("decomposed_problem_min_size: 150", "decomposed_problem_min_size: 30");
            run(rec, &format!("shippedd{k}"), &inst, &text, &conf, &["-r", r, "-t", if rec.tier == Tier::Thorough { "12" } else { "2" }]);
        }));
    }
    v
}
