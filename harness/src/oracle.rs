//! Choice oracles for the code under test: every random draw is a numbered choice point, and
//! explorers enumerate choice sequences exhaustively within stated bounds.
use fastrand::mc::{self, Oracle};
use std::cell::RefCell;
use std::rc::Rc;

/// Reals that a draw from [0,1) may return.
pub const REALS: [f64; 5] = [0.0, 0.26, 0.51, 0.76, 0.999999];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy {
    /// Always the first option.
    First,
    /// Always the last option.
    Last,
    /// A fixed stream (deterministic function of the seed and the draw number).
    Stream(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Choice {
    pub n: u32,
    pub c: u32,
    pub real: bool,
}

const FAIR: u64 = 600;

pub struct State {
    pub prefix: Vec<u32>,
    pub policy: Policy,
    pub reals: Vec<f64>,
    /// Choice points that may branch; beyond this many the policy decides silently.
    pub horizon: usize,
    /// Total draws after which the execution counts as hanging.
    pub limit: u64,
    pub trace: Vec<Choice>,
    pub draws: u64,
    pub last_real: f64,
    pub diverged: bool,
    /// Fresh seeds (hash keys) are all the same and take nothing from the stream.
    pub raw_const: bool,
    rng: u64,
}

impl State {
    fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn pick(&mut self, n: u64, real: bool) -> u64 {
        self.draws += 1;
        if self.draws > self.limit {
            panic!("HANG: more than {} random draws in one execution", self.limit);
        }
        let i = self.trace.len();
        let c = if i < self.prefix.len() {
            let c = self.prefix[i] as u64;
            if c >= n {
                self.diverged = true;
                n - 1
            } else {
                c
            }
        } else {
            match self.policy {
                // A constant answer is unfair to rejection loops: only the first draws get it.
                Policy::First if self.draws < FAIR => 0,
                Policy::Last if self.draws < FAIR => n - 1,
                _ => {
                    let r = self.next();
                    ((r as u128 * n as u128) >> 64) as u64
                }
            }
        };
        if i < self.horizon {
            self.trace.push(Choice { n: n.min(u32::MAX as u64) as u32, c: c as u32, real });
        }
        c
    }
}

struct Handle(Rc<RefCell<State>>);

impl Oracle for Handle {
    fn choose(&mut self, n: u64) -> u64 {
        if n <= 1 {
            let mut s = self.0.borrow_mut();
            s.draws += 1;
            if s.draws > s.limit {
                panic!("HANG: more than {} random draws in one execution", s.limit);
            }
            return 0;
        }
        self.0.borrow_mut().pick(n, false)
    }
    fn real(&mut self) -> f64 {
        let mut s = self.0.borrow_mut();
        let v = match s.policy {
            Policy::Stream(_) if s.trace.len() >= s.horizon.min(usize::MAX) && s.reals.len() == REALS.len() => {
                s.draws += 1;
                if s.draws > s.limit {
                    panic!("HANG: more than {} random draws in one execution", s.limit);
                }
                (s.next() >> 11) as f64 / (1u64 << 53) as f64
            }
            _ => {
                let n = s.reals.len() as u64;
                let i = if n == 1 {
                    s.draws += 1;
                    if s.draws > s.limit {
                        panic!("HANG: more than {} random draws in one execution", s.limit);
                    }
                    0
                } else {
                    s.pick(n, true) as usize
                };
                s.reals[i]
            }
        };
        s.last_real = v;
        v
    }
    fn raw(&mut self) -> u64 {
        let mut s = self.0.borrow_mut();
        if s.raw_const {
            return 0x1234_5678_9ABC_DEF1;
        }
        s.next()
    }
}

thread_local! {
    static CUR: RefCell<Option<Rc<RefCell<State>>>> = const { RefCell::new(None) };
}

pub fn install(prefix: Vec<u32>, policy: Policy, reals: &[f64], horizon: usize) -> Rc<RefCell<State>> {
    let rng = match policy {
        Policy::Stream(s) => s.wrapping_mul(0xD1342543DE82EF95) ^ 0x5DEECE66D,
        _ => 1,
    };
    let st = Rc::new(RefCell::new(State { prefix, policy, reals: reals.to_vec(), horizon, limit: 20_000_000, trace: vec![], draws: 0, last_real: -1.0, diverged: false, raw_const: false, rng }));
    mc::set(Some(Box::new(Handle(st.clone()))));
    CUR.with(|c| *c.borrow_mut() = Some(st.clone()));
    st
}

pub fn clear() {
    let _ = mc::set(None);
    CUR.with(|c| *c.borrow_mut() = None);
}

/// The real returned by the most recent f64 draw on this thread.
pub fn last_real() -> f64 {
    CUR.with(|c| c.borrow().as_ref().map(|s| s.borrow().last_real).unwrap_or(-1.0))
}
pub fn draws() -> u64 {
    CUR.with(|c| c.borrow().as_ref().map(|s| s.borrow().draws).unwrap_or(0))
}

/// Enumerates executions depth first. `run` executes the code under test once with the installed
/// oracle. Default choices follow `policy`; at most `devs` of the first `horizon` choice points
/// deviate from it (None: every combination). Returns the number of executions.
pub fn explore(policy: Policy, reals: &[f64], horizon: usize, devs: Option<usize>, max: u64, mut run: impl FnMut(&Rc<RefCell<State>>) -> bool) -> (u64, bool) {
    // Work stack of prefixes with the number of deviations used so far.
    let mut stack: Vec<(Vec<u32>, usize)> = vec![(vec![], 0)];
    let mut n = 0u64;
    while let Some((prefix, used)) = stack.pop() {
        if n >= max {
            clear();
            return (n, false);
        }
        let plen = prefix.len();
        crate::hash::salt(7);
        let st = install(prefix.clone(), policy, reals, horizon);
        n += 1;
        let go = run(&st);
        let s = st.borrow();
        let diverged = s.diverged || s.trace.len() < plen;
        if !go {
            clear();
            return (n, true);
        }
        // A replay that met other choice points than its parent is judged like any execution, but not expanded.
        if !diverged && devs.map_or(true, |d| used < d) {
            for i in (plen..s.trace.len()).rev() {
                let ch = s.trace[i];
                for c in 0..ch.n {
                    if c != ch.c {
                        let mut p: Vec<u32> = s.trace[..i].iter().map(|t| t.c).collect();
                        p.push(c);
                        stack.push((p, used + 1));
                    }
                }
            }
        }
    }
    clear();
    (n, true)
}
