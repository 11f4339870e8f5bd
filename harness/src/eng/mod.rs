//! Engines: each enumerates a bounded space completely on the real code and monitors it.
use crate::core::{Engine, Rec, Tier};
use crate::refm::Sol;
use hybridcvrp::solver::genetic::Individual;
use hybridcvrp::solver::Context;

pub mod basics;
pub mod config;
pub mod decomp;
pub mod determinism;
pub mod dimacs;
pub mod drun;
pub mod eval;
pub mod ga;
pub mod fleet;
pub mod independent;
pub mod info;
pub mod ls;
pub mod matrix;
pub mod moves;
pub mod parse;
pub mod pipeline;
pub mod population;
pub mod procs;
pub mod program;
pub mod progress;
pub mod rr;
pub mod safety;
pub mod sector;
pub mod serial;
pub mod split;
pub mod stamps;
pub mod swapstar;

pub use info::{assumptions, bounds};

pub fn all() -> Vec<&'static Engine> {
    vec![&basics::COMPARE, &basics::RANDOM, &eval::ENGINE, &matrix::ENGINE, &sector::ENGINE, &split::ENGINE, &moves::ENGINE, &swapstar::ENGINE, &ls::ENGINE, &rr::ENGINE, &population::ENGINE, &ga::ENGINE, &pipeline::ENGINE, &stamps::ENGINE, &parse::ENGINE, &fleet::ENGINE, &serial::ENGINE, &config::ENGINE, &decomp::ENGINE, &drun::ENGINE, &determinism::ENGINE, &safety::ENGINE, &dimacs::ENGINE, &program::ENGINE, &independent::ENGINE, &progress::ENGINE]
}

pub fn thorough(t: Tier) -> bool {
    t == Tier::Thorough
}

/// An evaluated individual with this route assignment.
pub fn ind(ctx: &Context, s: &Sol) -> Individual {
    let mut i = Individual::new(s.concat(), 0);
    i.phenotype = s.clone();
    i.evaluate(ctx);
    i
}

/// Pads with empty routes.
pub fn pad(mut s: Sol, k: usize) -> Sol {
    while s.len() < k {
        s.push(vec![]);
    }
    s
}

pub fn nonempty(s: &Sol) -> Sol {
    s.iter().filter(|r| !r.is_empty()).cloned().collect()
}

/// Checks that an individual describes a complete solution whose genotype, routes and evaluation agree.
pub fn consistent(rec: &mut Rec, inst: &crate::inst::Inst, i: &Individual, pen: f64, props: &[&str], what: &dyn Fn() -> String) -> bool {
    use crate::refm;
    let n = inst.n();
    let mut ok = rec.check(refm::complete(n, &i.phenotype), props, || format!("routes are not a partition of the customers: {:?}; {}", i.phenotype, what()));
    ok = ok && rec.check(i.genotype == i.phenotype.concat(), props, || format!("genotype {:?} is not the concatenation of the routes {:?}; {}", i.genotype, i.phenotype, what()));
    if ok {
        let e = refm::eval(inst, &i.phenotype, pen);
        ok = rec.check(refm::close(e.cost, i.penalized_cost()), props, || format!("evaluation {} but the routes {:?} cost {}; {}", i.penalized_cost(), i.phenotype, e.cost, what()));
        let exact = e.over.iter().all(|o| *o <= 1e-7 || *o >= 1e-5);
        ok = ok && (!exact || rec.check(e.feasible == i.is_feasible(), props, || format!("feasible={} but overloads are {:?}; {}", i.is_feasible(), e.over, what())));
    }
    ok
}
