//! `mc check PROP TIER` | `mc replay FILE` | `mc list`
use mccore::core::{self, Engine, Tier};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::Instant;

fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn engines_for(prop: &str) -> Vec<&'static Engine> {
    mccore::eng::all().into_iter().filter(|e| e.tags.contains(&prop)).collect()
}

fn tier(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn worker(a: &[String]) -> i32 {
    // worker PROP TIER OUT CRASH [ENGINE UNIT]
    let (prop, t, out, crash) = (&a[0], tier(&a[1]), &a[2], &a[3]);
    unsafe {
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        if std::env::var_os("MC_ASAN").is_none() {
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        let no = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &no);
    }
    core::install_crash_handlers(crash);
    let only = if a.len() >= 6 { Some((a[4].as_str(), a[5].as_str())) } else { None };
    let engs = engines_for(prop);
    let o = core::run_units(&engs, prop, t, only, only.is_some());
    let v = json!({
        "violations": o.viols.iter().map(|v| json!({"property": v.prop, "engine": v.engine, "unit": v.unit, "detail": v.detail})).collect::<Vec<_>>(),
        "states": o.states, "transitions": o.transitions, "traces": o.traces, "samples": o.samples,
        "engines": o.per_engine.iter().map(|(n, u, s, t, tr, d)| json!({"engine": n, "units": u, "states": s, "transitions": t, "traces": tr, "cpu_s": (d * 100.0).round() / 100.0})).collect::<Vec<_>>(),
        "harness_error": o.harness_error, "skipped": o.skipped,
    });
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
    0
}

struct Known {
    prop: String,
    engine: String,
    unit: String,
    needle: String,
    what: String,
}

/// Lines `finding: {"property":..,"engine":..,"unit":..,"match":..,"what":..}`; other lines are for people.
fn known() -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", verif())) else { return vec![] };
    t.lines()
        .filter_map(|l| l.strip_prefix("finding:"))
        .filter_map(|l| serde_json::from_str::<Value>(l.trim()).ok())
        .map(|v| {
            let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
            Known { prop: s("property"), engine: s("engine"), unit: s("unit"), needle: s("match"), what: s("what") }
        })
        .collect()
}

fn run_worker(prop: &str, t: &str, only: Option<(&str, &str)>) -> Result<Value, String> {
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let (out, crash) = (dir.join("out.json"), dir.join("crash"));
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("worker").arg(prop).arg(t).arg(&out).arg(&crash);
    if let Some((e, u)) = only {
        c.arg(e).arg(u);
    }
    c.env("MC_SCRATCH", &dir).current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::inherit());
    let st = c.status().map_err(|e| e.to_string())?;
    let res = if let Ok(b) = std::fs::read(&out) {
        serde_json::from_slice::<Value>(&b).map_err(|e| e.to_string())
    } else {
        let cr = std::fs::read_to_string(&crash).unwrap_or_default();
        if st.code() == Some(86) && cr.len() > 3 {
            let line = cr.lines().next().unwrap_or("");
            let sig = &line[..2];
            let (e, u) = line[3..].split_once('|').unwrap_or(("?", "?"));
            let what = if sig == "99" { "made no progress (hang)".to_string() } else { format!("died with signal {sig}") };
            Ok(json!({"violations": [{"property": prop, "engine": e, "unit": u, "detail": format!("the code under test {what} in unit {u}")}], "states": 0, "transitions": 0, "traces": 0, "samples": [], "engines": [], "crashed": true}))
        } else {
            Err(format!("worker ended without a result: {st:?} {cr}"))
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    res
}

fn check(prop: &str, t: &str) -> i32 {
    let t0 = Instant::now();
    if engines_for(prop).is_empty() {
        println!("ERROR no engine decides {prop}");
        return 2;
    }
    let mut v = match run_worker(prop, t, None) {
        Ok(v) => v,
        Err(e) => {
            println!("ERROR {e}");
            return 2;
        }
    };
    if let Some(e) = v["harness_error"].as_str() {
        println!("ERROR harness: {e}");
        return 2;
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let viols = v["violations"].as_array().cloned().unwrap_or_default();
    let known = known();
    let mut fresh = vec![];
    let mut seen: BTreeMap<usize, ()> = BTreeMap::new();
    for x in &viols {
        let d = x["detail"].as_str().unwrap_or("");
        let k = known.iter().position(|k| k.prop == prop && k.engine == x["engine"] && (k.unit.is_empty() || k.unit == x["unit"]) && !k.needle.is_empty() && d.contains(&k.needle));
        match k {
            Some(i) => {
                seen.insert(i, ());
            }
            None => fresh.push(x.clone()),
        }
    }
    for (i, k) in known.iter().enumerate() {
        if k.prop == prop {
            println!("KNOWN-FINDING: property={} {}{}", prop, k.what, if seen.contains_key(&i) { "" } else { " (listed; not met in this run)" });
        }
    }
    let samples = std::mem::take(v["samples"].as_array_mut().unwrap_or(&mut vec![]));
    let assumptions: Vec<String> = mccore::eng::assumptions(prop).iter().map(|s| s.to_string()).collect();
    let ev = json!({
        "property": prop, "tier": t, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": v["states"], "transitions": v["transitions"], "traces_validated_against_impl": v["traces"],
            "exhaustive": fresh.is_empty() && v["skipped"].as_array().map_or(true, |s| s.is_empty()),
            "explanation": mccore::eng::bounds(prop),
            "engines": v["engines"],
            "units_not_begun_for_lack_of_time": v["skipped"],
            "samples": samples.iter().take(24).collect::<Vec<_>>(),
        },
        "assumptions": assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": fresh.len(),
    });
    let evd = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&evd);
    if let Err(e) = std::fs::write(format!("{evd}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        println!("ERROR cannot write evidence: {e}");
        return 2;
    }
    let _ = std::io::stdout().flush();
    if fresh.is_empty() {
        println!("OK property={prop} tier={t} states={} transitions={} traces={} wall={:.1}s", v["states"], v["transitions"], v["traces"], t0.elapsed().as_secs_f64());
        return 0;
    }
    let rd = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&rd);
    for (i, x) in fresh.iter().take(4).enumerate() {
        let mut x = x.clone();
        x["tier"] = json!(t);
        let path = format!("{rd}/{prop}-{i}.json");
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&x).unwrap() + "\n");
        println!("VIOLATION property={prop} replay={path}");
        println!("  {}|{}: {}", x["engine"].as_str().unwrap_or(""), x["unit"].as_str().unwrap_or(""), x["detail"].as_str().unwrap_or("").chars().take(1500).collect::<String>());
    }
    1
}

fn replay(file: &str) -> i32 {
    let x: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("json");
    let s = |k: &str| x[k].as_str().unwrap_or("").to_string();
    match run_worker(&s("property"), &s("tier"), Some((&s("engine"), &s("unit")))) {
        Ok(v) => {
            let viols = v["violations"].as_array().cloned().unwrap_or_default();
            for y in &viols {
                println!("VIOLATION property={} replay={file}\n  {}", s("property"), y["detail"].as_str().unwrap_or(""));
            }
            i32::from(!viols.is_empty())
        }
        Err(e) => {
            println!("ERROR {e}");
            2
        }
    }
}

#[global_allocator]
static ALLOCATOR: mccore::alloc::Watch = mccore::alloc::Watch;

fn main() {
    if std::env::var_os("MC_CFGPROBE").is_some() {
        std::process::exit(mccore::eng::config::cfgprobe());
    }
    if let Ok(s) = std::env::var("MC_DETPROBE") {
        std::process::exit(mccore::eng::determinism::probe(&s));
    }
    if let Ok(s) = std::env::var("MC_INDPROBE") {
        std::process::exit(mccore::eng::independent::probe(&s));
    }
    if let Ok(s) = std::env::var("MC_DIMPROBE") {
        std::process::exit(mccore::eng::dimacs::probe(&s));
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a[1..]),
        Some("check") => check(&a[1], a.get(2).map(|s| s.as_str()).unwrap_or("quick")),
        Some("replay") => replay(&a[1]),
        Some("unit") => {
            // unit PROP TIER ENGINE UNIT: run one unit in this process (debugging)
            let engs = engines_for(&a[1]);
            let o = core::run_units(&engs, &a[1], tier(&a[2]), Some((&a[3], &a[4])), true);
            for v in &o.viols {
                println!("{}|{}: {}", v.engine, v.unit, v.detail);
            }
            println!("{:?}", o.harness_error);
            0
        }
        Some("list") => {
            for e in mccore::eng::all() {
                println!("{} {:?} quick={} thorough={}", e.name, e.tags, (e.units)(Tier::Quick).len(), (e.units)(Tier::Thorough).len());
            }
            0
        }
        _ => {
            eprintln!("usage: mc check PROP TIER | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
