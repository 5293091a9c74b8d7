//! Crashes. A workload runs with every mutation of its files logged; the process may die after any prefix of that log.
//! For chosen prefixes the files are rebuilt, the database is opened and compared with what had been acknowledged by
//! then; the opening and the work that follows are logged in turn and die again, and so on.
use super::{sql::*, sqlgen, sqlm::*};
use crate::{
    engine::*,
    orch::Outcome,
    rng::Rng,
    sim::{FsOp, Image, IoFault, SECTOR, Sim, apply, relative},
};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::path::PathBuf;

/// A life of the process: it opens the database, does its operations and dies at each of the points.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
    pub knobs: Knobs,
    pub ops: Vec<Op>,
    /// How to choose where (see `place`).
    pub points: Vec<(u8, u32)>,
    /// What the disk does to the operations. After the first of these the process does nothing more.
    #[serde(default)]
    pub faults: Vec<IoFault>,
    /// It does so to every checkpoint that is asked for, and the process goes on.
    #[serde(default)]
    pub checkpoints: Vec<IoFault>,
}

struct Ctx<'a> {
    sim: &'static Sim,
    prop: &'a str,
    lives: Vec<Life>,
    dirs: usize,
    opened: u64,
}

struct Recorded {
    base: Image,
    log: Vec<FsOp>,
    marks: Vec<Mark>,
    /// Where the opening ended.
    opened: usize,
}

pub fn run(sim: &'static Sim, plan: &Value, out: &mut Outcome) {
    let lives: Vec<Life> = serde_json::from_value(plan["lives"].clone()).unwrap();
    let prop = plan["prop"].as_str().unwrap_or("").to_string();
    let mut c = Ctx { sim, prop: &prop, lives, dirs: 0, opened: 0 };
    if c.lives.is_empty() {
        return;
    }
    let dir = PathBuf::from("/l0");
    let life = c.lives[0].clone();
    sim.fs(|f| f.start_log(&dir));
    let Some(mut r) = Run::new(sim, out, dir.join("axmos.db"), life.knobs) else { return };
    r.strict = plan["strict"].as_bool().unwrap_or(false);
    r.ack("create");
    let opened = sim.log_len();
    let end = work(&mut r, &life);
    let log = relative(sim.fs(|f| f.stop_log()), &dir);
    let marks = std::mem::take(&mut r.marks);
    let ids = r.ids();
    let quiet = r.abandon();
    if matches!(end, End::Failed) {
        out.violations.clear();
    } else if !quiet || matches!(end, End::Wrong) {
        // Nothing has crashed yet: not what these properties are about.
        out.violations.clear();
        out.probe("failed before any death");
        return;
    }
    sim.fs(|f| f.mount(&dir, &Image::new()));
    out.probe_n("file operations", log.len() as u64);
    die(&mut c, out, 0, Recorded { base: Image::new(), log, marks, opened }, ids, "");
    out.probe_n("openings after a death", c.opened);
    let prop = c.prop.to_string();
    out.violations.retain(|v| relevant(&prop, &v.class, &v.detail));
}

/// What a property says nothing about is left to the others.
pub fn relevant(prop: &str, class: &str, msg: &str) -> bool {
    let contents = ["lost-commit", "recovery-not-repeatable", "wrong-contents", "wrong-rows", "wrong-count"].contains(&class);
    match prop {
        "C01" => contents || class == "open-failed" || class == "panic",
        "C02" => contents || class == "uncommitted-visible",
        // Indexes agree with their tables, and constraints hold, after recovery as well.
        "C06" => ["index", "wrong-rows", "wrong-contents"].contains(&class),
        "C07" => ["index", "constraint-accepted", "spurious-unique"].contains(&class),
        "C10" => class.starts_with("tree-"),
        "C11" => class.starts_with("page-"),
        // Schema changes are part of their transactions.
        "C15" => {
            let shape = ["there is a table", "it has columns", "it has indexes"].iter().any(|x| msg.contains(x));
            ["catalog", "schema", "ddl"].contains(&class) || (shape && (class == "lost-commit" || class == "uncommitted-visible"))
        }
        _ => class != "lost-commit" && class != "uncommitted-visible",
    }
}

enum End {
    Done,
    /// The disk failed, and the process gave up.
    Failed,
    Wrong,
}

fn work(r: &mut Run, life: &Life) -> End {
    let fired = |r: &Run| r.sim.fs(|f| f.fired.values().sum::<u64>());
    let mut before = fired(r);
    if !life.faults.is_empty() {
        r.sim.fs(|f| f.arm(life.faults.clone()));
    }
    let mut end = End::Done;
    for (n, op) in life.ops.iter().enumerate() {
        let checkpoint = matches!(op, Op::Flush) && !life.checkpoints.is_empty();
        if checkpoint {
            r.sim.fs(|f| f.arm(life.checkpoints.clone()));
        }
        let ok = r.step(n, op);
        if checkpoint {
            r.sim.fs(|f| f.disarm());
            if fired(r) > before {
                r.out.probe(if ok { "a checkpoint met a fault unnoticed" } else { "a checkpoint failed" });
                r.out.violations.clear();
                before = fired(r);
                continue;
            }
        }
        if matches!(op, Op::Faulty(..)) {
            before = fired(r);
        }
        if fired(r) > before {
            // An answer given nevertheless counts.
            r.out.probe(if ok { "the disk failed unnoticed" } else { "the disk failed" });
            r.out.violations.clear();
            r.sim.take_panics();
            end = End::Failed;
            break;
        }
        if !ok {
            end = End::Wrong;
            break;
        }
    }
    r.sim.fs(|f| f.disarm());
    end
}

/// For some points the process dies in the middle of the next write of more than a sector: that one, and how many
/// bytes of it are written.
pub fn within(log: &[FsOp], k: usize, (kind, x): (u8, u32)) -> (usize, usize) {
    let next = (k..log.len()).find_map(|i| match &log[i] {
        FsOp::Write(_, _, d) if kind & 16 != 0 && d.len() > SECTOR => Some((i, (d.len() - 1) / SECTOR)),
        _ => None,
    });
    match next {
        Some((i, n)) => (i, (1 + x.wrapping_mul(2654435761) as usize % n) * SECTOR),
        None => (k, 0),
    }
}

/// The operation after which the process dies.
fn place(rec: &Recorded, (kind, x): (u8, u32)) -> usize {
    let pick = |v: &[usize]| -> Option<usize> {
        if v.is_empty() { None } else { Some(v[((x as u64 * v.len() as u64) >> 32) as usize]) }
    };
    let n = rec.log.len();
    let uniform = ((x as u64 * (n as u64 + 1)) >> 32) as usize;
    let on = |name: &str| -> Vec<usize> {
        (0..n).filter(|i| rec.log[*i].path().to_string_lossy().contains(name)).collect()
    };
    match kind {
        // Right after something was acknowledged.
        1 => {
            let v: Vec<usize> = rec.marks.iter().filter(|m| m.maybe.is_none()).map(|m| m.log).collect();
            pick(&v).unwrap_or(uniform)
        }
        // In the middle of something that commits.
        2 => {
            let mut v = Vec::new();
            for w in rec.marks.windows(2) {
                if w[0].maybe.is_some() && w[1].maybe.is_none() {
                    v.extend(w[0].log..w[1].log);
                }
            }
            pick(&v).unwrap_or(uniform)
        }
        // While pages are written.
        3 => pick(&on("axmos.db")).unwrap_or(uniform),
        // Around the writes of the other files.
        4 => pick(&on("axmos.jnl")).unwrap_or(uniform),
        5 => {
            let v: Vec<usize> = (0..n).filter(|i| !matches!(rec.log[*i], FsOp::Write(..))).flat_map(|i| [i, i + 1]).collect();
            pick(&v).unwrap_or(uniform)
        }
        // During the opening.
        6 => {
            let v: Vec<usize> = (0..=rec.opened.min(n)).collect();
            pick(&v).unwrap_or(uniform)
        }
        // At the end.
        7 => n,
        _ => uniform,
    }
}

/// The process dies at the points of this life; what follows has to cope.
fn die(c: &mut Ctx, out: &mut Outcome, life: usize, rec: Recorded, ids: Ids, story: &str) -> bool {
    if life + 1 >= c.lives.len() {
        return true;
    }
    let mut points: Vec<(usize, usize)> = c.lives[life].points.iter().map(|p| within(&rec.log, place(&rec, (p.0 & 15, p.1)).min(rec.log.len()), *p)).collect();
    points.sort();
    points.dedup();
    let mut whole = rec.base.clone();
    let mut done = 0;
    for (k, part) in points {
        while done < k {
            apply(&mut whole, &rec.log[done]);
            done += 1;
        }
        let mut image = whole.clone();
        if part > 0 {
            apply(&mut image, &rec.log[k].first(part));
            out.probe("death in the middle of a write");
        }
        // What is certain by then, and what may be.
        let last = rec.marks.iter().rposition(|m| m.maybe.is_none() && m.log <= k);
        let mut cands = Vec::new();
        match last {
            Some(i) => {
                cands.push(rec.marks[i].state.clone());
                for m in rec.marks[i + 1..].iter().take_while(|m| m.maybe.is_some() && m.log <= k) {
                    cands.push(m.maybe.clone().unwrap());
                }
            }
            // The database was not there yet.
            None => cands.push(State::default()),
        }
        if last.is_none() && (part > 0 || !image.contains_key(&PathBuf::from("axmos.db"))) {
            continue;
        }
        let past: Vec<State> = last.map(|i| rec.marks[..i].iter().filter(|m| m.maybe.is_none()).rev().take(30).map(|m| m.state.clone()).collect()).unwrap_or_default();
        let next = rec.log.get(k).map(|o| o.short()).unwrap_or("the end".into());
        let how = if part > 0 { format!("{part} bytes into") } else { "before".into() };
        let story = format!("{story}life {life} dies after {k} of {} file operations ({how} {next}); ", rec.log.len());
        out.probe(if k <= rec.opened && life > 0 { "death during recovery" } else { "death" });
        if rec.log.get(k).is_some_and(|o| o.path().to_string_lossy().contains("axmos.db")) {
            out.probe("death during a checkpoint or eviction");
        }
        if !live(c, out, life + 1, &image, cands, past, k <= rec.opened, ids, &story) {
            return false;
        }
    }
    true
}

fn live(c: &mut Ctx, out: &mut Outcome, n: usize, image: &Image, cands: Vec<State>, past: Vec<State>, interrupted: bool, ids: Ids, story: &str) -> bool {
    c.dirs += 1;
    c.opened += 1;
    let dir = PathBuf::from(format!("/l{n}_{}", c.dirs));
    let sim = c.sim;
    let life = c.lives[n].clone();
    sim.fs(|f| {
        f.mount(&dir, image);
        f.start_log(&dir);
    });
    let path = dir.join("axmos.db");
    out.checks += 1;
    let db = Db::open(&path, life.knobs);
    let panics = sim.take_panics();
    let db = match db {
        Ok(db) if panics.is_empty() => db,
        Ok(_) => {
            out.fail("panic", format!("{story}opening the database: {}", panics.join("; ")));
            return settle(c, out);
        }
        Err(e) => {
            out.fail("open-failed", format!("{story}the database does not open: {e} {}", panics.join("; ")));
            return settle(c, out);
        }
    };
    let opened = sim.log_len();
    out.probe_n("operations of recovery", opened as u64);
    let mut found = None;
    {
        let mut diffs = Vec::new();
        for (i, s) in cands.iter().enumerate() {
            match differs(&db, s) {
                Ok(None) => {
                    found = Some(i);
                    break;
                }
                Ok(Some(d)) => diffs.push(d),
                Err(e) => {
                    diffs.push(Diff { text: e, missing: true, surplus: Vec::new() });
                    break;
                }
            }
        }
        if found.is_none() {
            // Something of the last acknowledged state is not there, or something older has come back.
            let lost = diffs[0].missing || diffs[0].surplus.iter().any(|(t, r)| past.iter().any(|s| s.tables.get(t).is_some_and(|t| t.rows.values().any(|x| show_row(x) == *r))));
            let again = n >= 2 && interrupted;
            let class = if again { "recovery-not-repeatable" } else if lost { "lost-commit" } else { "uncommitted-visible" };
            if c.prop != "C01" || lost {
                out.fail(class, format!("{story}after reopening the contents are not those acknowledged: {}{}", diffs[0].text, if diffs.len() > 1 { format!("; nor those of what was in progress: {}", diffs[1].text) } else { String::new() }));
            }
        }
    }
    let Some(found) = found else { return settle(c, out) };
    out.nontrivial = true;
    if found > 0 {
        out.probe("the commit in progress survived");
    }
    let state = cands[found].clone();
    let mut r = Run::adopt(sim, out, path, life.knobs, db, state, ids);
    r.contents_only = matches!(c.prop, "C01" | "C02");
    r.story(format!("{story}then "));
    let end = if r.audit(0) { work(&mut r, &life) } else { End::Wrong };
    let mut ok = !matches!(end, End::Wrong);
    if matches!(end, End::Done) && n + 1 == c.lives.len() {
        // Closing and opening again changes nothing, once or twice.
        ok = r.step(usize::MAX - 1, &Op::Reopen(life.knobs)) && r.step(usize::MAX, &Op::Reopen(life.knobs));
    }
    let log = relative(sim.fs(|f| f.stop_log()), &dir);
    let mut marks = vec![Mark { log: 0, state: cands[found].clone(), maybe: None, what: "recovery".into() }];
    marks.append(&mut r.marks);
    let ids = r.ids();
    let quiet = r.abandon();
    if matches!(end, End::Failed) {
        out.violations.clear();
    } else if !quiet || !ok {
        return settle(c, out);
    }
    sim.fs(|f| f.mount(&dir, &Image::new()));
    die(c, out, n, Recorded { base: image.clone(), log, marks, opened }, ids, story)
}

/// Goes on when nothing that has been found is of interest.
fn settle(c: &Ctx, out: &mut Outcome) -> bool {
    out.violations.retain(|v| relevant(c.prop, &v.class, &v.detail));
    out.violations.is_empty()
}

pub struct Diff {
    pub text: String,
    pub missing: bool,
    pub surplus: Vec<(String, String)>,
}

/// How what a database shows differs from a state.
fn differs(db: &Db, s: &State) -> Result<Option<Diff>, String> {
    let mut d = Diff { text: String::new(), missing: false, surplus: Vec::new() };
    let cat = axmosdb::verif::facade::catalog(&db.db, 100_000)?;
    for rel in cat.relations.iter().filter(|r| r.is_table && r.xmax.is_none()) {
        if !s.tables.contains_key(&rel.name) && db.exec(&format!("SELECT * FROM {}", rel.name)).is_ok() {
            d.text.push_str(&format!("there is a table {} that should not be there; ", rel.name));
            d.surplus.push((rel.name.clone(), String::new()));
        }
    }
    for (name, t) in &s.tables {
        if let Some(rel) = cat.relations.iter().find(|r| r.is_table && r.xmax.is_none() && r.name == *name) {
            let (got, want) = (columns_of(rel), columns_wanted(t));
            if got != want {
                d.text.push_str(&format!("{name}: it has columns {got:?} instead of {want:?}; "));
                d.missing = true;
            }
            let (got, want) = (index_columns(rel), t.uniq.iter().map(|u| u.cols.clone()).collect());
            if got != want {
                d.text.push_str(&format!("{name}: it has indexes on {got:?} instead of {want:?}; "));
                d.missing = true;
            }
        }
        let cols: Vec<&str> = std::iter::once("row_id").chain(t.cols.iter().map(|c| c.name.as_str())).collect();
        match db.exec(&format!("SELECT {} FROM {name}", cols.join(", "))) {
            Ok(Res::Rows { rows, .. }) => {
                let mut got: Vec<String> = rows.iter().map(|r| show_row(&r[1..])).collect();
                let mut want: Vec<String> = t.rows.values().map(|r| show_row(r)).collect();
                got.sort();
                want.sort();
                if got != want {
                    d.text.push_str(&format!("{name}: {}; ", diff(&want, &got)));
                    let (mut i, mut j) = (0, 0);
                    while i < want.len() || j < got.len() {
                        match (want.get(i), got.get(j)) {
                            (Some(a), Some(b)) if a == b => {
                                i += 1;
                                j += 1;
                            }
                            (Some(a), Some(b)) if a < b => {
                                d.missing = true;
                                i += 1;
                            }
                            (Some(_), None) => {
                                d.missing = true;
                                i += 1;
                            }
                            (_, Some(b)) => {
                                d.surplus.push((name.clone(), b.clone()));
                                j += 1;
                            }
                            (None, None) => break,
                        }
                    }
                }
            }
            Ok(_) => return Err("a query gave no rows".into()),
            Err(e) => {
                d.text.push_str(&format!("{name}: {e}; "));
                d.missing = true;
            }
        }
    }
    Ok(if d.text.is_empty() { None } else { Some(d) })
}

pub fn generate(prop: &str, rng: &mut Rng, _i: u64, thorough: bool) -> Value {
    let p = match prop {
        "C01" | "C02" | "C08" => sqlgen::profile(prop, rng, false),
        _ => {
            let mut p = sqlgen::profile("C08", rng, false);
            match prop {
                "C15" => {
                    p.tables = 3;
                    p.w = [25, 2, 35, 10, 10, 4, 5, 3, 1, 2, 0, 3, 0];
                }
                "C06" | "C07" => {
                    p.keys = *rng.pick(&[3, 6, 12, 60]);
                    p.w = [60, 2, 6, 9, 9, 4, 4, 3, 2, 2, 0, 8, 0];
                }
                _ => p.dml = [40, 25, 30, 5],
            }
            p
        }
    };
    let page = *rng.pick(&[4096usize, 4096, 4096, 8192]);
    let knobs = |rng: &mut Rng| Knobs {
        page,
        cache: *rng.pick(&[24usize, 40, 64, 200, 2000]),
        pool: 1 + rng.usize(2),
        min_keys: 3 + rng.usize(2),
        sib: 1 + rng.usize(2),
    };
    let k0 = knobs(rng);
    let n = 2 + rng.usize(if prop == "C08" { 3 } else { 2 });
    let mut all = Vec::new();
    let mut gen_state = (State::default(), Ids { row: 0, table: 0 });
    for life in 0..n {
        let mut q = p.clone();
        if life > 0 {
            q.ops = rng.usize(if life + 1 == n { 8 } else { 14 });
        }
        let (ops, after) = sqlgen::ops_from(rng, &q, gen_state.clone());
        gen_state = after;
        let count = match (life, thorough) {
            (0, false) => 6 + rng.usize(8),
            (0, true) => 12 + rng.usize(28),
            (1, _) => 1 + rng.usize(3),
            _ => 1 + rng.usize(2),
        };
        let points: Vec<(u8, u32)> = (0..count)
            .map(|_| {
                let kind = match prop {
                    "C01" => rng.weighted(&[20, 35, 10, 10, 5, 5, 5, 10]),
                    "C02" => rng.weighted(&[20, 15, 30, 10, 5, 5, 5, 10]),
                    _ if life > 0 => rng.weighted(&[15, 5, 10, 10, 10, 10, 40, 5]),
                    _ => rng.weighted(&[20, 5, 10, 25, 15, 10, 5, 10]),
                } as u8;
                (if rng.chance(400) { kind | 16 } else { kind }, rng.next() as u32)
            })
            .collect();
        let k = if life == 0 { k0 } else { knobs(rng) };
        let mut faults = Vec::new();
        let mut points = points;
        let mut checkpoints = Vec::new();
        if rng.chance(250) {
            checkpoints.push(IoFault {
                at: rng.usize(60) as u64 / rng.pick(&[1u64, 4, 15]),
                op: ["write", "sync", "len"][rng.weighted(&[75, 10, 15])].into(),
                kind: rng.pick(&["eio", "enospc"]).to_string(),
                count: *rng.pick(&[1u64, 1, 2, 1000]),
            });
        } else if life + 1 < n && rng.chance(300) {
            let most = *rng.pick(&[4usize, 16, 60, 200]);
            faults.push(IoFault {
                at: rng.usize(most) as u64,
                op: ["write", "sync", "len", "read"][rng.weighted(&[75, 10, 10, 5])].into(),
                kind: rng.pick(&["eio", "enospc"]).to_string(),
                count: *rng.pick(&[1u64, 1, 2, 1000]),
            });
            points.push((7, 0));
        }
        let ops = if k.cache == 2000 && faults.is_empty() && checkpoints.is_empty() && rng.chance(500) {
            ops.into_iter().map(|o| sqlgen::faulty(rng, o)).collect()
        } else {
            ops
        };
        all.push(Life { knobs: k, ops, points, faults, checkpoints });
    }
    let sched = rng.next();
    json!({"lives": all, "sched": {"seed": sched, "preempt": 0, "script": null, "max_steps": 80_000_000u64}})
}
