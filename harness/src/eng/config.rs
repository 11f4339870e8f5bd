//! Settings: defaults, YAML file, command line.
use super::parse::scratch;
use super::procs;
use super::*;
use crate::faults::{self, Plan};
use crate::core::{unit, Unit};
use crate::inst::Inst;
use hybridcvrp::config::Config;
use serde_yaml::{Mapping, Value};
use std::path::Path;

pub static ENGINE: Engine = Engine { name: "config", tags: &["C07"], units };
const P: &[&str] = &["C07"];

macro_rules! fields {
    ($($name:ident = $def:expr => [$($alt:expr),*];)*) => {
        const NAMES: &[&str] = &[$(stringify!($name)),*];
        fn defaults() -> Vec<&'static str> { vec![$($def),*] }
        /// Other values of every setting, as written in a file.
        fn alternatives() -> Vec<Vec<&'static str>> { vec![$(vec![$($alt),*]),*] }
        /// The settings as the rest of the program sees them.
        fn get(c: &Config) -> Vec<Value> { vec![$(serde_yaml::to_value(&c.$name).expect("HARNESS yaml")),*] }
    };
}

fields! {
    instance_path = "''" => ["a/b.vrp", "'x y'"];
    solution_path = "null" => ["out.sol", "''"];
    time_limit = "60" => ["7919", "0", "4294967296000"];
    bks = ".inf" => ["27591.0", "0.0", "12.5"];
    max_iterations = "null" => ["7", "0"];
    max_iterations_without_improvement = "20000" => ["3", "0", "7919"];
    num_vehicles = "1000000" => ["4", "1"];
    log_interval = "100" => ["1", "7919"];
    precompute_distance_size_limit = "2000" => ["0", "3"];
    round_distances = "true" => ["false"];
    decompose_limit = "3000" => ["0", "5"];
    decomposed_problem_min_size = "200" => ["1", "17"];
    deterministic = "false" => ["true"];
    seed = "1" => ["0", "2", "18446744073709551615"];
    min_population_size = "25" => ["1", "2"];
    initial_individuals = "100" => ["1", "2"];
    population_lambda = "40" => ["1", "2"];
    num_elites = "4" => ["0", "1"];
    num_diversity_closest = "5" => ["1", "2"];
    feasibility_proportion_target = "0.2" => ["0.0", "1.0", "0.4"];
    tournament_size = "2" => ["1", "3"];
    repair_probability = "0.5" => ["0.0", "1.0"];
    split_capacity_factor = "1.5" => ["1.0", "2.25"];
    linear_split = "true" => ["false"];
    local_search_granularity = "20" => ["1", "7"];
    dynamic_granularity = "false" => ["true"];
    granularity_min = "10" => ["1", "3"];
    ls_enabled = "true" => ["false"];
    relocate_single = "true" => ["false"];
    relocate_double = "true" => ["false"];
    relocate_double_reverse = "false" => ["true"];
    swap_one_with_one = "true" => ["false"];
    swap_two_with_one = "true" => ["false"];
    swap_two_with_two = "true" => ["false"];
    two_opt_intra_reverse = "true" => ["false"];
    two_opt_inter_reverse = "true" => ["false"];
    two_opt_inter = "true" => ["false"];
    swap_star = "true" => ["false"];
    penalty_capacity = "100.0" => ["0.5", "1.0"];
    penalty_update_interval = "10" => ["1", "3"];
    penalty_inc_multiplier = "1.2" => ["1.0", "3.5"];
    penalty_dec_multiplier = "0.85" => ["1.0", "0.5"];
    average_ruin_cardinality = "10" => ["1", "3"];
    max_ruin_string_length = "10" => ["1", "3"];
    rr_mutation = "true" => ["false"];
    rr_probability = "1.0" => ["0.0", "0.25"];
    rr_gamma = "1.0" => ["0.0", "2.5"];
    rr_final_temp = "1.0" => ["0.5", "2.0"];
    rr_start_temp = "10.0" => ["20.0", "1.5"];
    rr_diversify = "true" => ["false"];
    elite_education = "false" => ["true"];
    elite_education_problem_size_limit = "1" => ["0", "500"];
    elite_education_gamma = "1000.0" => ["0.0", "12.5"];
    elite_education_final_temp = "1.0" => ["0.5", "2.0"];
    elite_education_start_temp = "50.0" => ["20.0", "1.5"];
    elite_education_time_based = "false" => ["true"];
    elite_education_time_fraction = "0.02" => ["0.5", "1.0"];
}

fn val(s: &str) -> Value {
    serde_yaml::from_str(s).expect("HARNESS value")
}

/// Equal as settings: 1 and 1.0 are the same number.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_u64(), y.as_u64()) {
            (Some(x), Some(y)) => x == y,
            _ => x.as_f64() == y.as_f64(),
        },
        _ => a == b,
    }
}

fn differ(want: &[Value], got: &[Value]) -> Option<String> {
    let d: Vec<String> = (0..want.len()).filter(|&k| !same(&want[k], &got[k])).map(|k| format!("{} is {:?} instead of {:?}", NAMES[k], got[k], want[k])).collect();
    if d.is_empty() {
        None
    } else {
        Some(d.join(", "))
    }
}

fn judge(rec: &mut Rec, want: &[Value], c: &Config, what: &dyn Fn() -> String) {
    let d = differ(want, &get(c));
    rec.check(d.is_none(), P, || format!("{}: {}", d.clone().unwrap_or_default(), what()));
}

fn base() -> Vec<Value> {
    defaults().iter().map(|s| val(s)).collect()
}

/// Applies (setting, value) pairs to a configuration that starts at the defaults.
fn apply(rec: &mut Rec, from: &Config, before: &[Value], set: &[(usize, &str)], file: Option<&Path>) {
    rec.states += 1;
    rec.tick();
    let text: String = set.iter().map(|(k, v)| format!("{}: {}\n", NAMES[*k], v)).collect();
    let mut want = before.to_vec();
    for (k, v) in set {
        want[*k] = val(v);
    }
    let what = || format!("file {text:?}");
    rec.guard(what, |rec| {
        rec.transitions += 1;
        let mut m = Mapping::new();
        for (k, v) in set {
            m.insert(Value::String(NAMES[*k].into()), val(v));
        }
        let mut c = from.clone();
        c.update(&Value::Mapping(m));
        judge(rec, &want, &c, &what);
        if let Some(dir) = file {
            let f = dir.join("c.yml");
            std::fs::write(&f, if text.is_empty() { "{}\n".to_string() } else { text.clone() }).expect("HARNESS");
            let mut c = from.clone();
            c.update_from_yaml_file(f.to_str().unwrap());
            judge(rec, &want, &c, &|| format!("update from {}", what()));
            // From the defaults.
            let mut want = base();
            for (k, v) in set {
                want[*k] = val(v);
            }
            let c = Config::load_yaml_file(f.to_str().unwrap());
            judge(rec, &want, &c, &|| format!("load {}", what()));
            rec.transitions += 2;
        }
    });
}

/// Reads a configuration while the reads go as planned; returns their number.
fn read_as(rec: &mut Rec, f: &Path, want: &[Value], plan: &Plan) -> u64 {
    rec.states += 1;
    rec.transitions += 1;
    rec.traces += 1;
    rec.tick();
    let (r, seen) = faults::reading(plan, || std::panic::catch_unwind(|| Config::load_yaml_file(f.to_str().unwrap())));
    let hard = matches!(plan.error, Some((_, e)) if e != libc::EINTR);
    let what = || format!("{} read with {plan:?}", f.display());
    rec.check(!seen.endless, P, || format!("reading does not end after an error: {}", what()));
    match r {
        Ok(c) => judge(rec, want, &c, &what),
        Err(e) => {
            rec.check(hard, P, || format!("rejected ({}): {}", crate::core::panic_text(&e), what()));
        }
    }
    seen.calls
}

/// What the program started with `args` in `dir` uses; asked of this executable, whose command line
/// goes through the program's own parsing.
fn probe(rec: &mut Rec, dir: &Path, args: &[&str]) -> Result<Vec<Value>, String> {
    let exe = procs::sibling("mc");
    let slot = rec.slot;
    let _ = slot;
    let r = procs::run(&exe, args, &[("MC_CFGPROBE", "1")], dir, 30.0, &mut || ());
    rec.tick();
    if r.code != Some(0) {
        return Err(format!("exit {:?} stderr {}", r.code, r.err.chars().take(300).collect::<String>()));
    }
    let v: Value = serde_yaml::from_str(&r.out).map_err(|e| format!("{e}: {}", r.out))?;
    Ok(v.as_sequence().cloned().unwrap_or_default())
}

/// The child side of `probe`: as `main` does, up to the point where the run starts.
pub fn cfgprobe() -> i32 {
    let mut config = Config::load_yaml_file("config.yml");
    let args = hybridcvrp::cli::Args::parse();
    config.update_from_args(&args);
    print!("{}", serde_yaml::to_string(&Value::Sequence(get(&config))).unwrap());
    0
}

const YT: [Option<&str>; 2] = [None, Some("7")];
const YI: [Option<&str>; 2] = [None, Some("5")];
const YO: [Option<&str>; 2] = [None, Some("yaml.sol")];
const YR: [Option<&str>; 3] = [None, Some("true"), Some("false")];
const CT: [Option<&str>; 2] = [None, Some("8")];
const CI: [Option<&str>; 2] = [None, Some("6")];
const CO: [Option<&str>; 2] = [None, Some("cli.sol")];
const CR: [Option<&str>; 3] = [None, Some("true"), Some("false")];

fn ix(name: &str) -> usize {
    NAMES.iter().position(|n| *n == name).expect("HARNESS name")
}

fn cli_case(rec: &mut Rec, y: [Option<&str>; 4], c: [Option<&str>; 4], yaml_inst: bool, order: usize) {
    rec.states += 1;
    rec.tick();
    let dir = scratch(&format!("cfg{}", rec.slot));
    let keys = [ix("time_limit"), ix("max_iterations_without_improvement"), ix("solution_path"), ix("round_distances")];
    let mut text = String::from("log_interval: 9\n");
    let mut want = base();
    want[ix("log_interval")] = val("9");
    for k in 0..4 {
        if let Some(v) = y[k] {
            text += &format!("{}: {}\n", NAMES[keys[k]], v);
            want[keys[k]] = val(v);
        }
    }
    if yaml_inst {
        text += "instance_path: yaml.vrp\n";
    }
    want[ix("instance_path")] = val("cli.vrp");
    for k in 0..4 {
        if let Some(v) = c[k] {
            want[keys[k]] = val(v);
        }
    }
    if y[2].is_none() && c[2].is_none() {
        want[keys[2]] = val("output.sol");
    }
    let mut args: Vec<Vec<&str>> = vec![vec!["cli.vrp"]];
    for (k, opt) in ["-t", "-i", "-o", "-r"].iter().enumerate() {
        if let Some(v) = c[k] {
            args.push(vec![opt, v]);
        }
    }
    let n = args.len();
    args.rotate_left(order % n);
    if order >= n {
        args.reverse();
    }
    let args: Vec<&str> = args.concat();
    std::fs::write(dir.join("config.yml"), &text).expect("HARNESS");
    rec.transitions += 1;
    let got = probe(rec, &dir, &args);
    let what = || format!("config.yml {text:?} arguments {args:?}");
    match got {
        Err(e) => rec.fail(P, || format!("the program refuses its arguments: {e}: {}", what())),
        Ok(g) => {
            let d = if g.len() == want.len() { differ(&want, &g) } else { Some(format!("{} settings", g.len())) };
            rec.check(d.is_none(), P, || format!("{}: {}", d.clone().unwrap_or_default(), what()));
        }
    }
}

/// Two customers; every leg is 10.4 long, so the best solution costs 40 rounded, 41.6 exact (41 or 42).
fn two() -> Inst {
    Inst { name: "two".into(), xy: vec![(0.0, 0.0), (10.4, 0.0), (-10.4, 0.0)], dem: vec![0.0, 1.0, 1.0], cap: 1.0, rounded: false, size_limit: 0, lower: None }
}

/// One real run of the program.
#[derive(Clone)]
struct Run {
    yaml: String,
    args: Vec<&'static str>,
    /// Expected output file and whether distances are rounded.
    file: &'static str,
    rounded: bool,
    /// Must take at least this long.
    at_least: f64,
}

const SMALL: &str = "initial_individuals: 2\nmin_population_size: 2\npopulation_lambda: 2\nrr_gamma: 0.1\n";

fn real_run(rec: &mut Rec, name: &str, r: &Run) {
    rec.states += 1;
    rec.transitions += 1;
    rec.traces += 1;
    let dir = scratch(&format!("run-{name}-{}", rec.slot));
    std::fs::write(dir.join("config.yml"), &r.yaml).expect("HARNESS");
    std::fs::write(dir.join("i.vrp"), procs::text(&two())).expect("HARNESS");
    // Another instance, with another cost, for the path in the file.
    std::fs::write(dir.join("other.vrp"), procs::text(&two().with("x", |i| i.xy[1].0 = 100.4))).expect("HARNESS");
    let heart = rec.slot;
    let _ = heart;
    let exe = procs::sibling("hybridcvrp_bin");
    let mut ticks = 0u64;
    let out = procs::run(&exe, &r.args, &[], &dir, 60.0, &mut || ticks += 1);
    rec.tick();
    let what = || format!("config.yml {:?} arguments {:?} stderr {:?}", r.yaml, r.args, out.err.chars().rev().take(200).collect::<String>().chars().rev().collect::<String>());
    let mut sols: Vec<String> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).filter(|f| f.ends_with(".sol")).collect()).unwrap_or_default();
    sols.sort();
    if rec.check(!out.killed, P, || format!("the run does not stop within 60 s: {}", what())) && rec.check(out.code == Some(0), P, || format!("exit code {:?}: {}", out.code, what())) {
        rec.check(sols == [r.file], P, || format!("solution files {sols:?} instead of {:?}: {}", r.file, what()));
        let t = std::fs::read_to_string(dir.join(r.file)).unwrap_or_default();
        let cost = super::serial::read(&t).map(|s| s.1);
        let ok = if r.rounded { cost == Some(40) } else { cost == Some(41) || cost == Some(42) };
        rec.check(ok, P, || format!("cost {cost:?} with rounding {}: {}", r.rounded, what()));
        rec.check(out.took >= r.at_least, P, || format!("stopped after {:.2} s, before its time limit: {}", out.took, what()));
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn runs(th: bool) -> Vec<(String, Run)> {
    let mut v = vec![];
    // Output path and rounding, all sources.
    for (yo, co) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
        for yr in 0..3 {
            for cr in 0..3 {
                if !th && (yo + co + yr + cr) % 2 == 1 && !(yr == 2 && cr == 1) {
                    continue;
                }
                let mut yaml = format!("{SMALL}max_iterations_without_improvement: 2\nmax_iterations: 4\ntime_limit: 600\n");
                let mut args = vec!["i.vrp"];
                let mut file = "output.sol";
                if yo == 1 {
                    yaml += "solution_path: yaml.sol\ninstance_path: other.vrp\n";
                    file = "yaml.sol";
                }
                if co == 1 {
                    args.extend(["-o", "cli.sol"]);
                    file = "cli.sol";
                }
                let mut rounded = true;
                if let Some(r) = YR[yr] {
                    yaml += &format!("round_distances: {r}\n");
                    rounded = r == "true";
                }
                if let Some(r) = CR[cr] {
                    args.extend(["-r", if r == "true" { "true" } else { "false" }]);
                    rounded = r == "true";
                }
                v.push((format!("paths{yo}{co}{yr}{cr}"), Run { yaml, args, file, rounded, at_least: 0.0 }));
            }
        }
    }
    // Time limit: file and command line.
    let t = |yaml: &str, args: &[&'static str], at_least: f64| {
        let mut a = vec!["i.vrp"];
        a.extend_from_slice(args);
        Run { yaml: format!("{SMALL}max_iterations_without_improvement: 1000000000\n{yaml}"), args: a, file: "output.sol", rounded: true, at_least }
    };
    v.push(("time-yaml1".into(), t("time_limit: 1\n", &[], 0.9)));
    v.push(("time-cli1-over-600".into(), t("time_limit: 600\n", &["-t", "1"], 0.9)));
    v.push(("time-cli2-over-1".into(), t("time_limit: 1\n", &["-t", "2"], 1.9)));
    v
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    v.push(unit("single", move |rec| {
        let dir = scratch(&format!("cfg{}", rec.slot));
        let b = base();
        let d = Config::default();
        judge(rec, &b, &d, &|| "built-in defaults".into());
        let mut r = Config::default();
        r.update(&serde_yaml::from_str("{seed: 99, swap_star: false, bks: 3.0, solution_path: x}").unwrap());
        r.reset();
        judge(rec, &b, &r, &|| "after reset".into());
        apply(rec, &d, &b, &[], Some(&dir));
        for (k, alts) in alternatives().iter().enumerate() {
            for a in alts.iter().chain([&defaults()[k]]) {
                apply(rec, &d, &b, &[(k, a)], Some(&dir));
            }
        }
        // On top of a configuration in which every setting differs from its default.
        let all: Vec<(usize, &str)> = alternatives().iter().enumerate().map(|(k, a)| (k, a[0])).collect();
        apply(rec, &d, &b, &all, Some(&dir));
        let rev: Vec<(usize, &str)> = all.iter().rev().cloned().collect();
        apply(rec, &d, &b, &rev, Some(&dir));
        let other: Vec<Value> = all.iter().map(|(_, a)| val(a)).collect();
        let mut o = Config::default();
        let mut m = Mapping::new();
        for (k, v) in NAMES.iter().zip(&other) {
            m.insert(Value::String(k.to_string()), v.clone());
        }
        o.update(&Value::Mapping(m));
        judge(rec, &other, &o, &|| "all settings at once".into());
        for (k, alts) in alternatives().iter().enumerate() {
            for a in alts.iter().chain([&defaults()[k]]) {
                apply(rec, &o, &other, &[(k, a)], None);
            }
        }
        rec.sample(|| format!("{} settings, each alone, on the defaults and on a configuration without any default", NAMES.len()));
    }));
    // Pairs (thorough: triples), in both orders of appearance.
    for first in 0..NAMES.len() {
        v.push(unit(format!("pairs/{}", NAMES[first]), move |rec| {
            let b = base();
            let d = Config::default();
            let alts = alternatives();
            for second in 0..NAMES.len() {
                if second == first {
                    continue;
                }
                for x in &alts[first] {
                    for y in &alts[second] {
                        apply(rec, &d, &b, &[(first, x), (second, y)], None);
                    }
                }
                if th && second > first {
                    for third in second + 1..NAMES.len() {
                        apply(rec, &d, &b, &[(first, alts[first][0]), (second, alts[second][0]), (third, alts[third][0])], None);
                    }
                }
                if rec.stop() {
                    return;
                }
            }
        }));
    }
    v.push(unit("unknown", move |rec| {
        // Unknown keys anywhere, of any shape.
        let dir = scratch(&format!("cfg{}", rec.slot));
        let f = dir.join("c.yml");
        let b = base();
        let junk = ["ruin_alpha: 0.01\n", "x: {seed: 5, y: [1, 2]}\n", "Seed: 9\n", "time-limit: 3\n", "time_limit_: null\n", "'': 1\n", "12: seed\n", "true: false\n", "# seed: 7\n", "list: [seed, time_limit]\n", "null: 4\n"];
        for j in junk {
            for k in 0..NAMES.len() {
                for at in 0..3 {
                    rec.states += 1;
                    rec.tick();
                    let a = alternatives()[k][0];
                    let own = format!("{}: {}\n", NAMES[k], a);
                    let text = match at {
                        0 => format!("{j}{own}"),
                        1 => format!("{own}{j}"),
                        _ => format!("---\n{j}\n\n{own}# end"),
                    };
                    let mut want = b.clone();
                    want[k] = val(a);
                    rec.guard(|| format!("file {text:?}"), |rec| {
                        std::fs::write(&f, &text).expect("HARNESS");
                        let c = Config::load_yaml_file(f.to_str().unwrap());
                        judge(rec, &want, &c, &|| format!("file {text:?}"));
                        rec.transitions += 1;
                    });
                }
                if rec.stop() {
                    return;
                }
            }
        }
        // Whole numbers for settings that are reals.
        for k in 0..NAMES.len() {
            if defaults()[k].contains('.') {
                for a in ["0", "1", "3", "250"] {
                    apply(rec, &Config::default(), &b, &[(k, a)], Some(&dir));
                }
            }
        }
    }));
    v.push(unit("two-files", move |rec| {
        // Settings of an earlier file stay unless a later one sets them.
        let b = base();
        let alts = alternatives();
        for i in 0..NAMES.len() {
            for j in 0..NAMES.len() {
                let mut m = Mapping::new();
                m.insert(Value::String(NAMES[i].into()), val(alts[i][0]));
                let mut c = Config::default();
                let r = rec.guard(|| format!("{} then {}", NAMES[i], NAMES[j]), |_| {
                    c.update(&Value::Mapping(m));
                    c
                });
                if let Some(c) = r {
                    let mut mid = b.clone();
                    mid[i] = val(alts[i][0]);
                    apply(rec, &c, &mid, &[(j, alts[j].last().unwrap())], None);
                }
                if rec.stop() {
                    return;
                }
            }
        }
    }));
    for (yi, y) in YT.iter().enumerate() {
        for cr in 0..3 {
            for yr in 0..3 {
                v.push(unit(format!("cli/{yi}{cr}{yr}"), move |rec| {
                    for b in 0..64usize {
                        let p = |i: usize| b >> i & 1;
                        let y = [*y, YI[p(0)], YO[p(1)], YR[yr]];
                        let c = [CT[p(2)], CI[p(3)], CO[p(4)], CR[cr]];
                        let n = 1 + c.iter().filter(|x| x.is_some()).count();
                        let orders = if th { 2 * n } else { 1 };
                        for o in 0..orders {
                            let order = if th { o } else { b % (2 * n) };
                            cli_case(rec, y, c, p(5) == 1, order);
                        }
                        if rec.stop() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    v.push(unit("shipped", move |rec| {
        // The file that comes with the program says what it says.
        let dir = scratch(&format!("cfg{}", rec.slot));
        let repo = std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into());
        let text = std::fs::read_to_string(format!("{repo}/config.yml")).expect("HARNESS config.yml");
        std::fs::write(dir.join("config.yml"), &text).expect("HARNESS");
        let m: Value = serde_yaml::from_str(&text).expect("HARNESS yaml");
        let mut want = base();
        for (k, n) in NAMES.iter().enumerate() {
            if let Some(v) = m.get(*n) {
                want[k] = v.clone();
            }
        }
        rec.guard(|| "config.yml as shipped".into(), |rec| {
            let c = Config::load_yaml_file(dir.join("config.yml").to_str().unwrap());
            judge(rec, &want, &c, &|| "config.yml as shipped".into());
        });
        want[ix("instance_path")] = val("some.vrp");
        want[ix("solution_path")] = val("output.sol");
        match probe(rec, &dir, &["some.vrp"]) {
            Err(e) => rec.fail(P, || format!("shipped config.yml, no options: {e}")),
            Ok(g) => {
                let d = differ(&want, &g);
                rec.check(d.is_none(), P, || format!("shipped config.yml, no options: {}", d.clone().unwrap_or_default()));
            }
        }
        rec.states += 2;
    }));
    // A file that arrives in pieces, with interruptions and errors at every point.
    v.push(unit("reads", move |rec| {
        let dir = scratch(&format!("cfgrd{}", rec.slot));
        let repo = std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into());
        let shipped = std::fs::read_to_string(format!("{repo}/config.yml")).expect("HARNESS config.yml");
        let small = "seed: 77\ntime_limit: 12\nswap_star: false\n".to_string();
        for (i, text) in [small, shipped].into_iter().enumerate() {
            let f = dir.join(format!("c{i}.yml"));
            std::fs::write(&f, &text).expect("HARNESS");
            let m: Value = serde_yaml::from_str(&text).expect("HARNESS yaml");
            let mut want = base();
            for (k, n) in NAMES.iter().enumerate() {
                if let Some(v) = m.get(*n) {
                    want[k] = v.clone();
                }
            }
            let limits: &[usize] = if i == 0 { &[0, 1, 2, 7] } else { &[0, 64, 1000] };
            for &limit in limits {
                let n = read_as(rec, &f, &want, &Plan { limit, ..Plan::default() });
                for k in 1..=n {
                    read_as(rec, &f, &want, &Plan { limit, short: Some((k, 1)), ..Plan::default() });
                    read_as(rec, &f, &want, &Plan { limit, error: Some((k, libc::EINTR)), ..Plan::default() });
                    for forever in [false, true] {
                        read_as(rec, &f, &want, &Plan { limit, error: Some((k, libc::EIO)), forever, ..Plan::default() });
                    }
                    if rec.stop() {
                        return;
                    }
                }
            }
        }
    }));
    // The script for the DIMACS challenge: 1 means rounded, 0 means exact distances.
    for (flag, rounded) in [("1", true), ("0", false)] {
        for yr in 0..3 {
            if !th && yr == 0 {
                continue;
            }
            v.push(unit(format!("script/{flag}{yr}"), move |rec| {
                rec.states += 1;
                rec.traces += 1;
                let dir = scratch(&format!("script{flag}{yr}"));
                let repo = std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into());
                let mut yaml = format!("{SMALL}max_iterations_without_improvement: 1000000000\ntime_limit: 600\n");
                if let Some(r) = YR[yr] {
                    yaml += &format!("round_distances: {r}\n");
                }
                std::fs::write(dir.join("config.yml"), &yaml).expect("HARNESS");
                std::fs::write(dir.join("i.vrp"), procs::text(&two())).expect("HARNESS");
                std::os::unix::fs::symlink(procs::sibling("hybridcvrp_bin"), dir.join("hybridcvrp")).expect("HARNESS");
                let script = format!("{repo}/HGSRR-DIMACS.sh");
                let out = procs::run(Path::new("/bin/bash"), &[&script, "i.vrp", flag, "1"], &[], &dir, 60.0, &mut || ());
                let what = || format!("script with {flag}, config.yml {yaml:?}: {}", out.err.chars().take(400).collect::<String>());
                if rec.check(!out.killed && out.code == Some(0), P, || format!("exit {:?}: {}", out.code, what())) {
                    let t = std::fs::read_to_string(dir.join("output.sol")).unwrap_or_default();
                    let cost = super::serial::read(&t).map(|s| s.1);
                    let ok = if rounded { cost == Some(40) } else { cost == Some(41) || cost == Some(42) };
                    rec.check(ok, P, || format!("cost {cost:?} with rounding {rounded}: {}", what()));
                }
                let _ = std::fs::remove_dir_all(&dir);
            }));
        }
    }
    for (name, r) in runs(th) {
        v.push(unit(format!("run/{name}"), move |rec| real_run(rec, &name, &r)));
    }
    v
}
