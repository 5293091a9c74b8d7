//! `axsim repl FILE`: runs a line script against the engine inside the simulator and prints the answers.
use crate::{
    engine::*,
    sim::{SchedSpec, Sim, SimEnv},
};
use std::{collections::BTreeMap, path::Path};

pub fn run(file: &str) {
    let script = std::fs::read_to_string(file).unwrap();
    let sim = Sim::leak();
    axmosdb::verif::install(Box::leak(Box::new(SimEnv(sim))));
    sim.configure(SchedSpec { seed: 1, preempt: 0, script: None, max_steps: 50_000_000 });
    sim.on_stuck(Box::new(|m, _| {
        println!("STUCK: {m}");
        unsafe { libc::_exit(3) }
    }));
    std::panic::set_hook(Box::new(move |i| println!("  !! PANIC {i}")));
    sim.run(Box::new(move || body(sim, &script)));
    unsafe { libc::_exit(0) }
}

fn body(sim: &'static Sim, script: &str) {
    let mut vol = 0;
    let mut k = Knobs::default();
    let path = |v: i32| format!("/v{v}/axmos.db");
    let mut db: Option<Db> = None;
    let mut ses: BTreeMap<String, axmosdb::tcp::session::Session> = BTreeMap::new();
    for line in script.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        println!("> {line}");
        let (cmd, rest) = line.split_once(' ').unwrap_or((line, ""));
        let open = |db: &mut Option<Db>, vol: i32, k: Knobs| match Db::open(Path::new(&path(vol)), k) {
            Ok(d) => {
                *db = Some(d);
                println!("  opened");
            }
            Err(e) => println!("  OPEN ERR {e}"),
        };
        match cmd {
            "knob" => {
                let (n, v) = rest.split_once(' ').unwrap();
                let v: usize = v.parse().unwrap();
                match n {
                    "page" => k.page = v,
                    "cache" => k.cache = v,
                    "pool" => k.pool = v,
                    "min" => k.min_keys = v,
                    _ => k.sib = v,
                }
            }
            "new" => db = Some(Db::create(Path::new(&path(vol)), k).unwrap()),
            "begin" => {
                ses.insert(rest.into(), db.as_ref().unwrap().session().unwrap());
            }
            "commit" => {
                let mut s = ses.remove(rest).unwrap();
                println!("  {:?}", s.commit_transaction().map_err(|e| e.to_string()));
            }
            "abort" => {
                let mut s = ses.remove(rest).unwrap();
                println!("  {:?}", s.abort_transaction().map_err(|e| e.to_string()));
            }
            "drop" => {
                ses.remove(rest);
            }
            "flush" => println!("  {:?}", db.as_ref().unwrap().flush()),
            "vacuum" => println!("  {:?}", db.as_ref().unwrap().vacuum()),
            "analyze" => println!("  {:?}", db.as_ref().unwrap().analyze()),
            "explain" => println!("  {}", db.as_ref().unwrap().db.explain(rest).unwrap_or_else(|e| e.to_string())),
            "close" => {
                db = None;
            }
            "open" => open(&mut db, vol, k),
            "reopen" => {
                db = None;
                open(&mut db, vol, k);
            }
            "crash" => {
                let img = sim.fs(|f| f.image(Path::new(&format!("/v{vol}"))));
                vol += 1;
                sim.fs(|f| f.mount(Path::new(&format!("/v{vol}")), &img));
                std::mem::forget(db.take());
                for (_, s) in std::mem::take(&mut ses) {
                    std::mem::forget(s);
                }
                open(&mut db, vol, k);
            }
            "files" => sim.fs(|f| {
                for (p, d) in &f.files {
                    println!("  {} {}", p.display(), d.len());
                }
            }),
            "batch" => {
                let v: Vec<&str> = rest.split(";;").map(|s| s.trim()).collect();
                println!("  {:?}", db.as_ref().unwrap().batch(&v).map(|v| v.iter().map(|r| r.show()).collect::<Vec<_>>()));
            }
            "repeat" => {
                let (n, sql) = rest.split_once(' ').unwrap();
                let mut errs = 0;
                let mut last = String::new();
                for i in 0..n.parse::<i64>().unwrap() {
                    if let Err(e) = db.as_ref().unwrap().exec(&sql.replace("{i}", &i.to_string())) {
                        errs += 1;
                        if last.is_empty() {
                            last = format!("at {i}: {e}");
                        }
                    }
                }
                println!("  {errs} errors {last}");
            }
            c if c.ends_with(':') => {
                let s = ses.get_mut(&c[..c.len() - 1]).unwrap();
                match sexec(s, rest) {
                    Ok(r) => println!("  {}", r.show()),
                    Err(e) => println!("  ERR {e}"),
                }
            }
            _ => match db.as_ref().unwrap().exec(line) {
                Ok(r) => println!("  {}", r.show()),
                Err(e) => println!("  ERR {e}"),
            },
        }
    }
}
