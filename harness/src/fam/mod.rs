//! Workload families: each turns a seed into a plan and a plan into one simulated run.
use crate::{orch::Outcome, rng::Rng, sim::Sim};
use serde_json::{Value, json};

pub mod audit;
pub mod btree;
pub mod crash;
pub mod rawsql;
pub mod sql;
pub mod sqlgen;
pub mod sqlm;
pub mod threads;
pub mod tuple;
pub mod vals;
pub mod wal;
pub mod wire;

pub fn generate(family: &str, prop: &str, seed: u64, i: u64, thorough: bool) -> Value {
    let mut rng = Rng::new(seed);
    let mut p = match family {
        "wal" => wal::generate(&mut rng, i, thorough),
        "wire" => wire::generate(&mut rng, i, thorough),
        "tuple" => tuple::generate(&mut rng, i, thorough),
        "btree" => btree::generate(prop, &mut rng, i, thorough),
        "crash" => crash::generate(prop, &mut rng, i, thorough),
        "threads" => threads::generate(prop, &mut rng, i, thorough),
        "sql" => sql::generate(prop, &mut rng, i, thorough),
        _ => panic!("unknown family {family}"),
    };
    p["family"] = json!(family);
    p["prop"] = json!(prop);
    p["seed"] = json!(seed);
    // For recording reproducers of known findings: asks for the ideal answer.
    if std::env::var("AXSIM_STRICT").is_ok() {
        p["strict"] = json!(true);
    }
    p
}

pub fn run(sim: &'static Sim, plan: &Value, out: &mut Outcome) {
    match plan["family"].as_str().unwrap_or("") {
        "wal" => wal::run(sim, plan, out),
        "wire" => wire::run(sim, plan, out),
        "tuple" => tuple::run(sim, plan, out),
        "btree" => btree::run(sim, plan, out),
        "crash" => crash::run(sim, plan, out),
        "threads" => threads::run(sim, plan, out),
        "sql" => sql::run(sim, plan, out),
        f => panic!("unknown family {f}"),
    }
    // What these properties do not speak of is left to the others.
    if plan["family"] != "btree" {
        match plan["prop"].as_str().unwrap_or("") {
            "C10" => out.violations.retain(|v| v.class.starts_with("tree-")),
            "C11" => out.violations.retain(|v| v.class.starts_with("page-") || v.class == "space"),
            _ => {}
        }
    }
}

/// Runs `f`, turning a panic into an error.
pub fn guard<T>(sim: &'static Sim, f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(sim.take_panics().last().cloned().unwrap_or_else(|| "panic".into())),
    }
}
