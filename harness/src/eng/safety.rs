//! Degenerate instances and extreme settings: whole short runs of both algorithms.
use super::ga::Watch;
use super::*;
use crate::clock;
use crate::core::{unit, Unit};
use crate::inst::{family, Inst};
use crate::oracle::{self, Policy};
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, GeneticAlgorithm};
use hybridcvrp::solver::Metaheuristic;

pub static ENGINE: Engine = Engine { name: "safety", tags: &["C23"], units };
const P: &[&str] = &["C23"];

type Set = fn(&mut Config);

/// Extreme but sensible settings.
pub fn extremes() -> Vec<(&'static str, Set)> {
    vec![
        ("default", |_| ()),
        ("rr off", |c| c.rr_mutation = false),
        ("ls off", |c| c.ls_enabled = false),
        ("population 1", |c| {
            c.min_population_size = 1;
            c.population_lambda = 1;
        }),
        ("initial 1", |c| c.initial_individuals = 1),
        ("lambda 1", |c| c.population_lambda = 1),
        ("initial 9", |c| c.initial_individuals = 9),
        ("tournament 1", |c| c.tournament_size = 1),
        ("tournament 9", |c| c.tournament_size = 9),
        ("elites 0", |c| c.num_elites = 0),
        ("elites 50", |c| c.num_elites = 50),
        ("closest 0", |c| c.num_diversity_closest = 0),
        ("closest 1", |c| c.num_diversity_closest = 1),
        ("closest 50", |c| c.num_diversity_closest = 50),
        ("granularity 1", |c| c.local_search_granularity = 1),
        ("granularity 1000", |c| c.local_search_granularity = 1000),
        ("dynamic granularity", |c| {
            c.dynamic_granularity = true;
            c.granularity_min = 1;
        }),
        ("dynamic granularity wide", |c| {
            c.dynamic_granularity = true;
            c.granularity_min = 10;
            c.local_search_granularity = 300;
        }),
        ("ruin 1", |c| c.average_ruin_cardinality = 1),
        ("ruin 1000", |c| c.average_ruin_cardinality = 1000),
        ("string 1", |c| c.max_ruin_string_length = 1),
        ("string 1000", |c| c.max_ruin_string_length = 1000),
        ("gamma 0", |c| c.rr_gamma = 0.0),
        ("gamma 5", |c| c.rr_gamma = 5.0),
        ("equal temperatures", |c| {
            c.rr_start_temp = 1.0;
            c.rr_final_temp = 1.0;
        }),
        ("probability 0", |c| c.rr_probability = 0.0),
        ("no diversify", |c| c.rr_diversify = false),
        ("repair always", |c| {
            c.repair_probability = 1.0;
            c.feasibility_proportion_target = 1.0;
            c.penalty_inc_multiplier = 10.0;
        }),
        ("repair never", |c| {
            c.repair_probability = 0.0;
            c.feasibility_proportion_target = 0.0;
            c.penalty_dec_multiplier = 0.01;
        }),
        ("multipliers 1", |c| {
            c.penalty_inc_multiplier = 1.0;
            c.penalty_dec_multiplier = 1.0;
        }),
        ("restart 0", |c| c.max_iterations_without_improvement = 0),
        ("restart 1", |c| c.max_iterations_without_improvement = 1),
        ("split exact", |c| c.split_capacity_factor = 1.0),
        ("split wide", |c| c.split_capacity_factor = 50.0),
        ("split quadratic", |c| c.linear_split = false),
        ("split quadratic exact", |c| {
            c.linear_split = false;
            c.split_capacity_factor = 1.0;
        }),
        ("no moves", |c| {
            c.relocate_single = false;
            c.relocate_double = false;
            c.swap_one_with_one = false;
            c.swap_two_with_one = false;
            c.swap_two_with_two = false;
            c.two_opt_intra_reverse = false;
            c.two_opt_inter_reverse = false;
            c.two_opt_inter = false;
            c.swap_star = false;
        }),
        ("all moves", |c| c.relocate_double_reverse = true),
        ("swap star off", |c| c.swap_star = false),
        ("swap star only", |c| {
            c.relocate_single = false;
            c.relocate_double = false;
            c.swap_one_with_one = false;
            c.swap_two_with_one = false;
            c.swap_two_with_two = false;
            c.two_opt_intra_reverse = false;
            c.two_opt_inter_reverse = false;
            c.two_opt_inter = false;
        }),
        ("elite", |c| {
            c.elite_education = true;
            c.elite_education_problem_size_limit = 0;
            c.elite_education_gamma = 10.0;
        }),
        ("elite short", |c| {
            c.elite_education = true;
            c.elite_education_problem_size_limit = 0;
            c.elite_education_gamma = 0.0;
        }),
        ("elite timed", |c| {
            c.elite_education = true;
            c.elite_education_problem_size_limit = 0;
            c.elite_education_time_based = true;
            c.elite_education_time_fraction = 0.000_000_001;
        }),
        ("log often", |c| c.log_interval = 1),
        ("penalty update often", |c| c.penalty_update_interval = 1),
        ("computed distances", |c| c.precompute_distance_size_limit = 0),
        ("rounded", |c| c.round_distances = true),
        ("no generations", |c| c.max_iterations = Some(0)),
        ("not deterministic", |c| c.deterministic = false),
        ("best known", |c| c.bks = 1.0),
    ]
}

/// Degenerate shapes with n customers.
pub fn shapes(n: usize) -> Vec<Inst> {
    let mk = |name: &str, xy: &dyn Fn(usize) -> (f64, f64), dem: &dyn Fn(usize) -> f64, cap: f64| Inst {
        name: format!("{name}{n}"),
        xy: (0..=n).map(|i| xy(i)).collect(),
        dem: (0..=n).map(|i| if i == 0 { 0.0 } else { dem(i) }).collect(),
        cap,
        rounded: false,
        size_limit: 2000,
        lower: None,
    };
    let mut v = vec![
        mk("all_at_depot", &|_| (3.0, 4.0), &|_| 1.0, 1.0),
        mk("all_at_depot_zero", &|_| (0.0, 0.0), &|_| 0.0, 5.0),
        mk("all_elsewhere", &|i| if i == 0 { (0.0, 0.0) } else { (7.0, -2.0) }, &|_| 2.0, 4.0),
        mk("zero_demands", &|i| (i as f64, (i * i % 5) as f64), &|_| 0.0, 1.0),
        mk("full_vehicles", &|i| ((i * 7 % 5) as f64, (i * 3 % 4) as f64), &|_| 10.0, 10.0),
        mk("just_over_half", &|i| ((i * 7 % 5) as f64, (i * 3 % 4) as f64), &|_| 5.1, 10.0),
        mk("line", &|i| (i as f64 * 2.5, 0.0), &|i| i as f64, n as f64),
        mk("line_negative", &|i| (-(i as f64), 0.0), &|_| 1.0, 2.0),
        mk("huge", &|i| (i as f64 * 1e6, -(i as f64) * 3e5), &|_| 1e5, 1.7e5),
        mk("tiny", &|i| (i as f64 * 1e-6, (i % 2) as f64 * 1e-6), &|_| 1e-3, 2e-3),
        mk("loose", &|i| ((i * 5 % 7) as f64, (i * 2 % 3) as f64), &|_| 1.0, 1e6),
        mk("one_big", &|i| ((i * 5 % 7) as f64, (i * 2 % 3) as f64), &|i| if i == 1 { 100.0 } else { 1.0 }, 100.0),
        mk("thirds", &|i| ((i * 5 % 7) as f64, (i * 2 % 3) as f64), &|_| 0.1, 0.3),
    ];
    let base = v[6].clone();
    v.push(base.with(&format!("matrix_zero{n}"), |i| i.lower = Some((1..=n).map(|a| vec![0.0; a]).collect())));
    v.push(base.with(&format!("matrix_far{n}"), |i| i.lower = Some((1..=n).map(|a| (0..a).map(|b| if b == 0 { 1e6 } else { 0.25 }).collect()).collect())));
    v.extend(family(n.min(9)));
    v
}

fn setup(c: &mut Config) {
    super::ga::small(c);
    c.max_iterations = Some(5);
    c.rr_gamma = 1.0;
}

fn ga_run(rec: &mut Rec, inst: &Inst, sets: &[Set], pol: Policy, what: &dyn Fn() -> String) {
    rec.states += 1;
    rec.traces += 1;
    rec.guard(what, |rec| {
        crate::hash::salt(11);
        clock::start(1_000_000_000, 20_000, vec![]);
        let ctx = inst.ctx_with(|c| {
            setup(c);
            for s in sets {
                s(c);
            }
        });
        let st = oracle::install(vec![], pol, &oracle::REALS, 0);
        st.borrow_mut().limit = 3_000_000;
        let mut ga = GeneticAlgorithm::new(&ctx);
        let mut w = Watch::new(inst, &ctx);
        let mut calls = 0u64;
        while !ga.terminated() {
            ga.iterate(&ctx);
            calls += 1;
            if !rec.check(calls < 200_000, P, || format!("no end: {}", what())) {
                break;
            }
        }
        rec.transitions += calls;
        w.history(rec, &ctx, what);
    });
    clock::clear();
    oracle::clear();
}

fn dec_run(rec: &mut Rec, inst: &Inst, sets: &[Set], min: u64, pol: Policy, what: &dyn Fn() -> String) {
    rec.states += 1;
    rec.traces += 1;
    rec.guard(what, |rec| {
        crate::hash::salt(11);
        clock::start(1_000_000_000, 0, vec![]);
        let ctx = inst.ctx_with(|c| {
            setup(c);
            for s in sets {
                s(c);
            }
            c.decomposed_problem_min_size = min;
            c.max_iterations = None;
        });
        let st = oracle::install(vec![], pol, &oracle::REALS, 0);
        st.borrow_mut().limit = 2_000_000_000;
        let mut m = DecomposedGeneticAlgorithm::new(&ctx);
        let mut w = Watch::new(inst, &ctx);
        m.iterate(&ctx);
        rec.tick();
        for _ in 0..2 {
            // Little time for the sub-problem.
            clock::set_step(20_000_000_000_000);
            m.iterate(&ctx);
            clock::set_step(0);
            rec.tick();
        }
        rec.transitions += 3;
        w.history(rec, &ctx, what);
    });
    clock::clear();
    oracle::clear();
}

fn units(t: Tier) -> Vec<Unit> {
    let th = thorough(t);
    let mut v = vec![];
    let sizes: &[usize] = if th { &[1, 2, 3, 4, 5, 7, 9] } else { &[1, 2, 3, 5] };
    for &n in sizes {
        for inst in shapes(n) {
            v.push(unit(format!("ga/{}", inst.name.clone() + &n.to_string()), move |rec| {
                let ex = extremes();
                for (i, (a, f)) in ex.iter().enumerate() {
                    for (pi, pol) in [Policy::Stream(1), Policy::First, Policy::Last, Policy::Stream(2)].into_iter().enumerate() {
                        if !th && pi == 3 {
                            continue;
                        }
                        let what = || format!("{} settings {a} policy {pol:?}", inst.describe());
                        ga_run(rec, &inst, &[*f], pol, &what);
                        if rec.stop() {
                            return;
                        }
                    }
                    for (j, (b, g)) in ex.iter().enumerate().skip(i + 1) {
                        if !th && (i * 7 + j * 3 + n) % 5 != 0 {
                            continue;
                        }
                        let what = || format!("{} settings {a} and {b}", inst.describe());
                        ga_run(rec, &inst, &[*f, *g], Policy::Stream(5), &what);
                        if rec.stop() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    for &n in sizes {
        for (k, inst) in shapes(n).into_iter().enumerate() {
            for (e, (a, f)) in extremes().into_iter().enumerate() {
                if (!th || n > 2) && (e + k + n) % (if th { 7 } else { 37 }) != 0 {
                    continue;
                }
                let inst = inst.clone();
                v.push(unit(format!("dec/{}/{a}", inst.name.clone() + &n.to_string()), move |rec| {
                    for min in [1u64, 2, n as u64, 1000] {
                        if !th && (min as usize + e) % 2 == 1 {
                            continue;
                        }
                        let what = || format!("{} decomposed from {min} settings {a}", inst.describe());
                        dec_run(rec, &inst, &[f], min, Policy::Stream(1 + e as u64), &what);
                        if rec.stop() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    v
}
