//! Instance files: every layout variant, every truncation, every missing part.
use super::*;
use crate::core::{panic_text, unit, Unit};
use crate::faults::{self, Plan};
use crate::inst::{family, Inst};
use hybridcvrp::config::Config;
use hybridcvrp::utils::ProblemParser;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

pub static ENGINE: Engine = Engine { name: "parse", tags: &["C06"], units };
const P: &[&str] = &["C06"];

pub fn scratch(name: &str) -> PathBuf {
    let d = std::env::var("MC_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir().join(format!("mc-scratch-{}", std::process::id())));
    let d = d.join(name.replace('/', "_"));
    std::fs::create_dir_all(&d).expect("HARNESS scratch");
    d
}

/// What a file describes.
#[derive(Clone, Debug, PartialEq)]
pub struct Data {
    pub cap: f64,
    pub xy: Vec<(f64, f64)>,
    pub dem: Vec<f64>,
    pub lower: Option<Vec<Vec<f64>>>,
}

/// How it is written.
#[derive(Clone, Debug)]
pub struct Lay {
    pub colon: &'static str,
    pub sep: &'static str,
    pub lead: &'static str,
    pub trail: &'static str,
    pub eol: &'static str,
    pub last_eol: bool,
    pub num: usize,
    /// Order of the headers.
    pub order: Vec<usize>,
    pub extra: usize,
    pub demand_first: bool,
    pub tail: usize,
    /// Node numbers as written.
    pub first_id: usize,
}

pub fn plain_layout() -> Lay {
    Lay { colon: " : ", sep: " ", lead: "", trail: "", eol: "\n", last_eol: true, num: 0, order: (0..6).collect(), extra: 0, demand_first: false, tail: 2, first_id: 1 }
}

fn num(x: f64, style: usize) -> String {
    match style {
        0 => format!("{x}"),
        1 if x.fract() == 0.0 => format!("{x:.1}"),
        1 => format!("{x}"),
        2 => format!("{x:e}"),
        3 if x >= 0.0 => format!("+{x}"),
        3 => format!("{x}"),
        _ => format!("{x:.6}"),
    }
}

/// The lines of the file, each as tokens-with-separators.
pub fn lines(d: &Data, l: &Lay) -> Vec<String> {
    let kv = |k: &str, v: String| format!("{}{k}{}{v}{}", l.lead, l.colon, l.trail);
    let dim = d.xy.len();
    let mut heads = vec![
        kv("NAME", "toy-n5".into()),
        kv("COMMENT", "\"a small one: it has (colons: 3) and CAPACITY DIMENSION words\"".into()),
        kv("TYPE", "CVRP".into()),
        kv("DIMENSION", dim.to_string()),
        kv("EDGE_WEIGHT_TYPE", if d.lower.is_some() { "EXPLICIT" } else { "EUC_2D" }.into()),
        kv("CAPACITY", num(d.cap, l.num)),
    ];
    if d.lower.is_some() {
        heads.push(kv("EDGE_WEIGHT_FORMAT", "LOWER_ROW".into()));
    }
    let mut out: Vec<String> = vec![];
    for &o in &l.order {
        out.push(heads[o].clone());
        if l.extra == 1 {
            out.push(kv("DISPLAY_DATA_TYPE", "COORD_DISPLAY 17".into()));
        }
        if l.extra == 2 {
            out.push(String::new());
        }
    }
    for h in heads.iter().skip(6) {
        out.push(h.clone());
    }
    if l.extra == 3 {
        out.push(kv("VEHICLES", "3".into()));
        out.push(kv("NODE_COORD_TYPE", "TWOD_COORDS".into()));
    }
    let row = |v: Vec<String>| format!("{}{}{}", l.lead, v.join(l.sep), l.trail);
    let coords: Vec<String> = std::iter::once(row(vec!["NODE_COORD_SECTION".into()]))
        .chain(d.xy.iter().enumerate().map(|(i, p)| row(vec![(i + l.first_id).to_string(), num(p.0, l.num), num(p.1, l.num)])))
        .collect();
    let dems: Vec<String> = std::iter::once(row(vec!["DEMAND_SECTION".into()]))
        .chain(d.dem.iter().enumerate().map(|(i, q)| row(vec![(i + l.first_id).to_string(), num(*q, l.num)])))
        .collect();
    let mut edges = vec![];
    if let Some(lo) = &d.lower {
        edges.push(row(vec!["EDGE_WEIGHT_SECTION".into()]));
        for r in lo {
            edges.push(row(r.iter().map(|x| num(*x, l.num)).collect()));
        }
    }
    if l.demand_first {
        out.extend(dems);
        out.extend(edges);
        out.extend(coords);
    } else {
        out.extend(edges);
        out.extend(coords);
        out.extend(dems);
    }
    if l.tail >= 1 {
        out.push(row(vec!["DEPOT_SECTION".into()]));
        out.push(row(vec!["1".into()]));
        out.push(row(vec!["-1".into()]));
    }
    if l.tail >= 2 {
        out.push("EOF".into());
    }
    out
}

pub fn text(ls: &[String], l: &Lay) -> String {
    let mut s = ls.join(l.eol);
    if l.last_eol {
        s.push_str(l.eol);
    }
    s
}

pub fn data(i: &Inst) -> Data {
    Data { cap: i.cap, xy: i.xy.clone(), dem: i.dem.clone(), lower: i.lower.clone() }
}

/// What the parser makes of a text: the data, or the reason for rejecting it.
fn parse(file: &std::path::Path, content: &[u8]) -> Result<ProblemParser, String> {
    std::fs::write(file, content).expect("HARNESS write");
    let mut c = Config::default();
    c.instance_path = file.to_str().unwrap().to_string();
    catch_unwind(AssertUnwindSafe(|| {
        let mut p = ProblemParser::new();
        p.parse(&mut c);
        p
    }))
    .map_err(|e| panic_text(&e))
}

fn got(p: &ProblemParser) -> Option<Data> {
    let pr = p.problem.as_ref()?;
    Some(Data { cap: pr.vehicle.cap, xy: pr.nodes.iter().map(|n| (n.coord.lng, n.coord.lat)).collect(), dem: pr.nodes.iter().map(|n| n.demand).collect(), lower: p.matrix.clone() })
}

fn accept(rec: &mut Rec, file: &std::path::Path, content: &str, want: &Data, what: &dyn Fn() -> String) {
    rec.tick();
    rec.states += 1;
    match parse(file, content.as_bytes()) {
        Ok(p) => {
            let g = got(&p);
            rec.check(g.as_ref() == Some(want), P, || format!("read as {g:?} instead of {want:?}: {}: {content:?}", what()));
        }
        Err(e) => {
            rec.fail(P, || format!("rejected ({e}): {}: {content:?}", what()));
        }
    }
}

fn reject(rec: &mut Rec, file: &std::path::Path, content: &str, what: &dyn Fn() -> String) {
    rec.tick();
    rec.states += 1;
    if let Ok(p) = parse(file, content.as_bytes()) {
        rec.fail(P, || format!("accepted as {:?}: {}: {content:?}", got(&p), what()));
    }
}

/// Reads a file as the plan says; returns the number of reads.
fn pieces(rec: &mut Rec, file: &std::path::Path, content: &str, want: &Data, plan: &Plan) -> u64 {
    rec.states += 1;
    rec.transitions += 1;
    rec.traces += 1;
    let mut c = Config::default();
    c.instance_path = file.to_str().unwrap().to_string();
    let (r, seen) = faults::reading(plan, || {
        catch_unwind(AssertUnwindSafe(|| {
            let mut p = ProblemParser::new();
            p.parse(&mut c);
            p
        }))
    });
    let hard = matches!(plan.error, Some((_, e)) if e != libc::EINTR);
    rec.check(!seen.endless, P, || format!("reading does not end after an error: {plan:?}: {content:?}"));
    match r {
        Ok(p) => {
            let g = got(&p);
            rec.check(g.as_ref() == Some(want), P, || format!("read as {g:?} instead of {want:?}: {plan:?}: {content:?}"));
        }
        Err(e) => {
            rec.check(hard, P, || format!("rejected ({}): {plan:?}: {content:?}", panic_text(&e)));
        }
    }
    seen.calls
}

fn toys() -> Vec<(String, Data)> {
    let mut v = vec![];
    for n in [1usize, 2, 4] {
        for i in family(n) {
            if [0, 2, 4, 5].iter().any(|k| family(n)[*k].name == i.name) {
                v.push((format!("{}{n}", i.name), data(&i)));
            }
        }
    }
    v
}

fn independent(text: &str) -> Option<Data> {
    let mut it = text.lines();
    let (mut dim, mut cap) = (None, None);
    let (mut xy, mut dem) = (vec![], vec![]);
    while let Some(l) = it.next() {
        let (k, v) = match l.split_once(':') {
            Some((k, v)) => (k.trim(), v.trim()),
            None => (l.trim(), ""),
        };
        match k {
            "DIMENSION" => dim = v.parse::<usize>().ok(),
            "CAPACITY" => cap = v.parse::<f64>().ok(),
            "NODE_COORD_SECTION" => {
                for _ in 0..dim? {
                    let t: Vec<f64> = it.next()?.split_whitespace().map(|x| x.parse().unwrap_or(f64::NAN)).collect();
                    xy.push((t[1], t[2]));
                }
            }
            "DEMAND_SECTION" => {
                for _ in 0..dim? {
                    let t: Vec<f64> = it.next()?.split_whitespace().map(|x| x.parse().unwrap_or(f64::NAN)).collect();
                    dem.push(t[1]);
                }
            }
            _ => {}
        }
    }
    Some(Data { cap: cap?, xy, dem, lower: None })
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    const COLONS: [&str; 6] = [" : ", ": ", ":", " :", "\t:\t", " : \t"];
    const SEPS: [&str; 4] = [" ", "\t", "   ", " \t "];
    const LEADS: [&str; 3] = ["", " ", "\t "];
    const TRAILS: [&str; 3] = ["", " ", "\t\t"];
    for (name, d) in toys() {
        for colon in COLONS {
            let (d, nm) = (d.clone(), name.clone());
            v.push(unit(format!("layout/{name}/{colon:?}"), move |rec| {
                let dir = scratch(&format!("lay{nm}{}", rec.slot));
                let f = dir.join("i.vrp");
                for sep in SEPS {
                    for lead in LEADS {
                        for trail in TRAILS {
                            for eol in ["\n", "\r\n"] {
                                for last_eol in [true, false] {
                                    for num in if th { vec![0, 1, 2, 3, 4] } else { vec![0, 1, 2] } {
                                        for demand_first in [false, true] {
                                            for tail in if th { vec![0, 1, 2] } else { vec![0, 2] } {
                                                let l = Lay { colon, sep, lead, trail, eol, last_eol, num, demand_first, tail, ..plain_layout() };
                                                let c = text(&lines(&d, &l), &l);
                                                accept(rec, &f, &c, &d, &|| format!("{l:?}"));
                                                rec.transitions += 1;
                                            }
                                        }
                                    }
                                }
                            }
                            if rec.stop() {
                                return;
                            }
                        }
                    }
                }
                rec.sample(|| "all layouts of this instance".into());
            }));
        }
        let (d, nm) = (d.clone(), name.clone());
        v.push(unit(format!("headers/{name}"), move |rec| {
            let dir = scratch(&format!("hd{nm}{}", rec.slot));
            let f = dir.join("i.vrp");
            crate::refm::perms(6, &mut |p| {
                for extra in 0..4 {
                    for first_id in [0usize, 1, 7] {
                        if rec.stop() || (extra > 0 && first_id != 1) {
                            return;
                        }
                        let l = Lay { order: p.iter().map(|x| x - 1).collect(), extra, first_id, ..plain_layout() };
                        let c = text(&lines(&d, &l), &l);
                        accept(rec, &f, &c, &d, &|| format!("{l:?}"));
                        rec.transitions += 1;
                    }
                }
            });
        }));
        let (_, d) = toys().into_iter().find(|(n, _)| *n == name).unwrap();
        let nm = name.clone();
        v.push(unit(format!("cut/{name}"), move |rec| {
            let dir = scratch(&format!("cut{nm}{}", rec.slot));
            let f = dir.join("i.vrp");
            let mut layouts = vec![];
            for demand_first in [false, true] {
                for tail in [0usize, 2] {
                    for (eol, sep) in [("\n", " "), ("\r\n", "\t")] {
                        for last_eol in [true, false] {
                            layouts.push(Lay { demand_first, tail, eol, sep, last_eol, ..plain_layout() });
                            layouts.push(Lay { demand_first, tail, eol, sep, last_eol, order: vec![5, 4, 3, 2, 1, 0], ..plain_layout() });
                        }
                    }
                }
            }
            for l in layouts {
                let ls = lines(&d, &l);
                // The last line that is needed.
                let tail_lines = if l.tail >= 2 { 4 } else { 0 };
                let needed = ls.len() - tail_lines;
                for keep in 0..=ls.len() {
                    let part = text(&ls[..keep], &l);
                    let what = || format!("the first {keep} of {} lines", ls.len());
                    rec.transitions += 1;
                    if keep >= needed {
                        accept(rec, &f, &part, &d, &what);
                    } else {
                        reject(rec, &f, &part, &what);
                        // Cut inside the next line, after each of its words.
                        let toks: Vec<&str> = ls[keep].split(l.sep).collect();
                        for k in 1..toks.len() {
                            let c = format!("{part}{}{}", if l.last_eol || keep == 0 { "" } else { l.eol }, toks[..k].join(l.sep));
                            reject(rec, &f, &c, &|| format!("cut after word {k} of line {keep}"));
                            rec.transitions += 1;
                        }
                    }
                    if rec.stop() {
                        return;
                    }
                }
                // One line less, anywhere.
                for drop in 0..needed {
                    let mut x = ls.clone();
                    let gone = x.remove(drop);
                    let c = text(&x, &l);
                    let optional = ["NAME", "COMMENT", "TYPE"].iter().any(|k| gone.starts_with(k));
                    let what = || format!("without the line {gone:?}");
                    rec.transitions += 1;
                    if optional {
                        accept(rec, &f, &c, &d, &what);
                    } else {
                        reject(rec, &f, &c, &what);
                    }
                }
                // One word less in a line, or a word that is no number.
                for at in 0..needed {
                    let toks: Vec<&str> = ls[at].split(l.sep).collect();
                    let section = ls[at].ends_with("_SECTION");
                    let header = ls[at].contains(':');
                    if section || header {
                        continue;
                    }
                    let explicit_row = d.lower.is_some() && ls[..at].iter().rposition(|x| x.ends_with("_SECTION")).map_or(false, |p| ls[p].starts_with("EDGE_WEIGHT_SECTION"));
                    let first = if explicit_row { 0 } else { 1 };
                    for k in first..toks.len() {
                        let mut y = toks.clone();
                        y[k] = "abc";
                        let mut x = ls.clone();
                        x[at] = y.join(l.sep);
                        reject(rec, &f, &text(&x, &l), &|| format!("word {k} of line {at} is no number"));
                        let mut y = toks.clone();
                        y.remove(k);
                        x[at] = y.join(l.sep);
                        reject(rec, &f, &text(&x, &l), &|| format!("line {at} lacks word {k}"));
                        rec.transitions += 2;
                    }
                }
                // Headers without a usable value.
                for (key, bads) in [
                    ("EDGE_WEIGHT_TYPE", vec!["EUC_3D", "GEO", "ATT", "CEIL_2D", "MAN_2D", "EUC_2", "euc2d", "LOWER_ROW", ""]),
                    ("CAPACITY", vec!["many", ""]),
                    ("DIMENSION", vec!["some", "", "-3", "2.5"]),
                    ("EDGE_WEIGHT_FORMAT", vec!["FULL_MATRIX", "UPPER_ROW", "LOWER_DIAG_ROW", "UPPER_DIAG_ROW", "LOWER_COL", ""]),
                ] {
                    for bad in bads {
                        let mut x = ls.clone();
                        let Some(p) = x.iter().position(|s| s.starts_with(key)) else { continue };
                        x[p] = format!("{key} : {bad}");
                        reject(rec, &f, &text(&x, &l), &|| format!("{key} is {bad:?}"));
                        rec.transitions += 1;
                    }
                }
                // More nodes announced than present.
                for more in 1..3 {
                    let mut x = ls.clone();
                    let p = x.iter().position(|s| s.starts_with("DIMENSION")).unwrap();
                    x[p] = format!("DIMENSION : {}", d.xy.len() + more);
                    reject(rec, &f, &text(&x, &l), &|| format!("DIMENSION {more} too large"));
                    rec.transitions += 1;
                }
            }
        }));
    }
    // Files that arrive in pieces, with interruptions and errors at every point.
    for (name, d) in toys() {
        v.push(unit(format!("reads/{name}"), move |rec| {
            let dir = scratch(&format!("rd{name}{}", rec.slot));
            let f = dir.join("i.vrp");
            for l in [plain_layout(), Lay { eol: "\r\n", sep: "\t", tail: 0, demand_first: true, last_eol: false, ..plain_layout() }] {
                let c = text(&lines(&d, &l), &l);
                std::fs::write(&f, &c).expect("HARNESS write");
                for limit in [0usize, 1, 2, 3, 5, 7, 64] {
                    let n = pieces(rec, &f, &c, &d, &Plan { limit, ..Plan::default() });
                    for k in 1..=n {
                        rec.tick();
                        pieces(rec, &f, &c, &d, &Plan { limit, error: Some((k, libc::EINTR)), ..Plan::default() });
                        pieces(rec, &f, &c, &d, &Plan { limit, short: Some((k, 1)), ..Plan::default() });
                        for forever in [false, true] {
                            pieces(rec, &f, &c, &d, &Plan { limit, error: Some((k, libc::EIO)), forever, ..Plan::default() });
                        }
                    }
                    if rec.stop() {
                        return;
                    }
                }
            }
        }));
    }
    // Lines that are no text.
    for (name, d) in toys() {
        v.push(unit(format!("bytes/{name}"), move |rec| {
            let dir = scratch(&format!("by{name}{}", rec.slot));
            let f = dir.join("i.vrp");
            for demand_first in [false, true] {
                let l = Lay { demand_first, ..plain_layout() };
                let ls = lines(&d, &l);
                for at in 0..ls.len() {
                    for pos in 0..=ls[at].len() {
                        for bad in [&b"\xff"[..], &b"\xc3"[..]] {
                            let mut c = vec![];
                            for (i, x) in ls.iter().enumerate() {
                                let mut b = x.clone().into_bytes();
                                if i == at {
                                    b.splice(pos..pos, bad.iter().cloned());
                                }
                                c.extend(b);
                                c.push(b'\n');
                            }
                            rec.states += 1;
                            rec.transitions += 1;
                            rec.tick();
                            // A comment may hold anything, and what is read must be what is there.
                            if let Ok(p) = parse(&f, &c) {
                                let g = got(&p);
                                rec.check(g.as_ref() == Some(&d), P, || format!("with the bytes {bad:?} at {pos} of line {at} read as {g:?} instead of {d:?}: {:?}", String::from_utf8_lossy(&c)));
                            }
                        }
                    }
                    if rec.stop() {
                        return;
                    }
                }
            }
        }));
    }
    // What is no file.
    v.push(unit("directory", |rec| {
        let dir = scratch("directory");
        std::fs::write(dir.join("config.yml"), "time_limit: 1\n").expect("HARNESS");
        std::fs::create_dir_all(dir.join("d.vrp")).expect("HARNESS");
        for p in ["d.vrp", ".", "/dev/null", "d.vrp/x", "config.yml"] {
            rec.states += 1;
            rec.transitions += 1;
            rec.tick();
            let r = super::procs::run(&super::procs::sibling("hybridcvrp_bin"), &[p, "-o", "s.sol"], &[], &dir, 20.0, &mut || ());
            rec.check(!r.killed && r.code != Some(0), P, || format!("given {p} as instance the program {} {}", if r.killed { "does not end".to_string() } else { format!("ends with {:?}", r.code) }, r.err));
        }
        let _ = std::fs::remove_dir_all(&dir);
    }));
    // A missing file.
    v.push(unit("missing_file", |rec| {
        let dir = scratch("missing");
        let mut c = Config::default();
        for p in ["", "nothing.vrp"] {
            c.instance_path = dir.join(p).join("x").to_str().unwrap().into();
            let mut c2 = c.clone();
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut p = ProblemParser::new();
                p.parse(&mut c2);
                p
            }));
            rec.states += 1;
            rec.check(r.is_err(), P, || "a missing file was accepted".into());
        }
    }));
    // Through the context: both directions of explicit matrices and all node data.
    v.push(unit("context", |rec| {
        let dir = scratch(&format!("ctx{}", rec.slot));
        let f = dir.join("i.vrp");
        for n in 1..=5 {
            for inst in family(n) {
                for rounded in [false, true] {
                    let d = data(&inst);
                    let l = plain_layout();
                    let c = text(&lines(&d, &l), &l);
                    let Ok(p) = parse(&f, c.as_bytes()) else {
                        rec.fail(P, || format!("rejected: {c:?}"));
                        continue;
                    };
                    let mut cfg = inst.config();
                    cfg.round_distances = rounded;
                    let _o = crate::oracle::install(vec![], crate::oracle::Policy::First, &[0.5], 0);
                    let ctx = Context::new(p, cfg, std::time::Instant::now());
                    let x = inst.with("r", |i| i.rounded = rounded);
                    rec.states += 1;
                    for i in 0..=n {
                        rec.check(ctx.problem.nodes[i].demand == inst.dem[i] && ctx.problem.nodes[i].coord.lng == inst.xy[i].0 && ctx.problem.nodes[i].coord.lat == inst.xy[i].1, P, || format!("node {i} of {c:?}"));
                        for j in 0..=n {
                            let g = ctx.matrix_provider.distance.get(i, j);
                            rec.check(crate::refm::close(g, x.d(i, j)), P, || format!("distance {i} {j} is {g} instead of {} from {c:?}", x.d(i, j)));
                        }
                    }
                }
            }
        }
        crate::oracle::clear();
    }));
    // The shipped files.
    let repo = std::path::Path::new("/repo/instances");
    let mut files: Vec<PathBuf> = std::fs::read_dir(repo).map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for (i, chunk) in files.chunks(10).enumerate() {
        let chunk = chunk.to_vec();
        v.push(unit(format!("shipped/{i}"), move |rec| {
            for p in &chunk {
                let Ok(t) = std::fs::read_to_string(p) else { continue };
                let Some(want) = independent(&t) else { continue };
                rec.tick();
                rec.states += 1;
                let mut c = Config::default();
                c.instance_path = p.to_str().unwrap().into();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut q = ProblemParser::new();
                    q.parse(&mut c);
                    q
                }));
                match r {
                    Ok(q) => {
                        rec.check(got(&q) == Some(want), P, || format!("{} is read wrongly", p.display()));
                    }
                    Err(e) => {
                        rec.fail(P, || format!("{} rejected: {}", p.display(), panic_text(&e)));
                    }
                }
            }
        }));
    }
    let tiny = files.iter().find(|p| p.ends_with("X-n101-k25.vrp")).cloned();
    if let Some(p) = tiny {
        v.push(unit("shipped_cut", move |rec| {
            let t = std::fs::read_to_string(&p).unwrap();
            let dir = scratch(&format!("sc{}", rec.slot));
            let f = dir.join("i.vrp");
            let ls: Vec<&str> = t.split_inclusive('\n').collect();
            let need = ls.iter().position(|l| l.starts_with("DEPOT_SECTION")).unwrap();
            let want = independent(&t).unwrap();
            for keep in 0..=ls.len() {
                let part = ls[..keep].concat();
                let what = || format!("{} cut to {keep} lines", p.display());
                if keep >= need {
                    accept(rec, &f, &part, &want, &what);
                } else {
                    reject(rec, &f, &part, &what);
                }
                rec.transitions += 1;
            }
        }));
    }
    v
}
