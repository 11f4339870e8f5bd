//! Running the real program as a process, in a scratch directory.
use crate::inst::Inst;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// The instance as a TSPLIB file (coordinates; exact for the values used here).
pub fn text(i: &Inst) -> String {
    let n = i.xy.len();
    let mut s = format!("NAME : t\nCOMMENT : t\nTYPE : CVRP\nDIMENSION : {n}\nEDGE_WEIGHT_TYPE : EUC_2D\nCAPACITY : {}\nNODE_COORD_SECTION\n", i.cap);
    for (k, (x, y)) in i.xy.iter().enumerate() {
        s += &format!("{} {x} {y}\n", k + 1);
    }
    s += "DEMAND_SECTION\n";
    for (k, d) in i.dem.iter().enumerate() {
        s += &format!("{} {d}\n", k + 1);
    }
    s + "DEPOT_SECTION\n1\n-1\nEOF\n"
}

pub fn sibling(name: &str) -> PathBuf {
    std::env::current_exe().expect("HARNESS exe").parent().unwrap().join(name)
}

pub struct Ran {
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
    pub took: f64,
    pub killed: bool,
}

/// Runs a command in `dir`; kills it after `limit` seconds.
pub fn run(exe: &Path, args: &[&str], env: &[(&str, &str)], dir: &Path, limit: f64, tick: &mut dyn FnMut()) -> Ran {
    let (fo, fe) = (dir.join(".out"), dir.join(".err"));
    let mk = |p: &PathBuf| Stdio::from(std::fs::File::create(p).expect("HARNESS out"));
    let mut c = Command::new(exe);
    c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(mk(&fo)).stderr(mk(&fe)).env_remove("RUST_LOG");
    for (k, v) in env {
        c.env(k, v);
    }
    std::os::unix::process::CommandExt::process_group(&mut c, 0);
    let t0 = Instant::now();
    let mut ch = c.spawn().expect("HARNESS spawn");
    let mut killed = false;
    let mut nap = 300;
    let st = loop {
        if let Some(st) = ch.try_wait().expect("HARNESS wait") {
            break st;
        }
        if t0.elapsed().as_secs_f64() > limit && !killed {
            killed = true;
            unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL) };
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(20_000);
        tick();
    };
    let rd = |p: &PathBuf| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
    let r = Ran { code: st.code(), out: rd(&fo), err: rd(&fe), took: t0.elapsed().as_secs_f64(), killed };
    let _ = std::fs::remove_file(&fo);
    let _ = std::fs::remove_file(&fe);
    r
}
