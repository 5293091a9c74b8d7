//! Statements of several client threads at once. The scheduler decides every interleaving of the clients and the
//! workers of the engine; afterwards the recorded history (invocations, answers, real-time order) must be one that
//! snapshot isolation over the reference model explains, with the contents then found as its final state.
use super::{
    crash::{relevant, within},
    sql::{Model, Op, Run, Writes, columns_of, columns_wanted, index_columns, kind_of, style},
    sqlgen,
    sqlm::*,
};
use crate::{
    engine::*,
    orch::{Outcome, hash_str},
    rng::Rng,
    sim::{FsOp, Image, Sim, apply, relative},
};
use axmosdb::{tcp::session::Session, verif::facade};
use serde_json::{Value, json};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    path::PathBuf,
    sync::{
        Arc, Mutex,
        atomic::{AtomicU64, Ordering},
    },
};

/// What came back, and when: ticks of a counter that every invocation and every return advance.
struct Call {
    inv: u64,
    ret: u64,
    /// How many file operations had been done then.
    log: (usize, usize),
    what: What,
}

enum What {
    Begin(R<()>),
    /// In the thread's session or on its own.
    Q(bool, St, String, R<Res>),
    Batch(Vec<St>, String, R<Vec<Res>>),
    /// Commit (true) or one of the ways of rolling back.
    End(bool, R<()>),
    Flush(R<()>),
    Vacuum(R<()>),
    Analyze(R<()>),
}

fn shown<T>(r: &R<T>, f: impl Fn(&T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(e) => format!("ERR {e}"),
    }
}

impl Call {
    fn text(&self) -> String {
        let s = match &self.what {
            What::Begin(r) => format!("begin: {}", shown(r, |_| "ok".into())),
            What::Q(s, _, sql, r) => format!("{}{sql}: {}", if *s { "in session: " } else { "" }, shown(r, |r| r.show())),
            What::Batch(_, sql, r) => format!("batch {sql}: {}", shown(r, |v| v.iter().map(|r| r.show()).collect::<Vec<_>>().join(" ;; "))),
            What::End(c, r) => format!("{}: {}", if *c { "commit" } else { "roll back" }, shown(r, |_| "ok".into())),
            What::Flush(r) => format!("flush: {}", shown(r, |_| "ok".into())),
            What::Vacuum(r) => format!("vacuum: {}", shown(r, |_| "ok".into())),
            What::Analyze(r) => format!("analyze: {}", shown(r, |_| "ok".into())),
        };
        if s.len() > 300 { format!("{}...", s.chars().take(280).collect::<String>()) } else { s }
    }
}

/// One client thread: works off its operations.
fn client(sim: &'static Sim, db: Arc<Db>, ops: Vec<Op>, me: usize, clock: Arc<AtomicU64>, calls: Arc<Mutex<Vec<Call>>>) {
    let mut ses: Option<(Session, bool)> = None;
    let tick = || (clock.fetch_add(1, Ordering::SeqCst), sim.log_len());
    let story = |what: &str| crate::orch::story(me, what);
    let note = |inv: (u64, usize), what: What| {
        let ret = tick();
        calls.lock().unwrap().push(Call { inv: inv.0, ret: ret.0, log: (inv.1, ret.1), what });
    };
    for op in ops {
        let inv = tick();
        match op {
            Op::Begin(_) if ses.is_none() => {
                story("begin");
                let r = db.session();
                note(inv, What::Begin(r.as_ref().map(|_| ()).map_err(|e| e.clone())));
                ses = r.ok().map(|s| (s, false));
            }
            Op::Commit(_) => {
                let Some((mut s, _)) = ses.take() else { continue };
                story("commit");
                let r = s.commit_transaction().map_err(|e| e.to_string());
                note(inv, What::End(true, r));
            }
            Op::Rollback(_) | Op::DropS(_) => {
                let Some((mut s, updated)) = ses.take() else { continue };
                story("roll back");
                // An explicit rollback keeps updates: see the known findings.
                let r = if updated || matches!(op, Op::DropS(_)) { Ok(()) } else { s.abort_transaction().map_err(|e| e.to_string()) };
                drop(s);
                note(inv, What::End(false, r));
            }
            Op::Q(_, St::Raw(_), _) => {}
            Op::Q(k, st, var) => {
                let sql = st.sql(style(var));
                story(&sql);
                if k != 0 {
                    let Some((s, updated)) = ses.as_mut() else { continue };
                    let r = sexec(s, &sql);
                    *updated |= matches!(st, St::Upd { .. });
                    note(inv, What::Q(true, st, sql, r));
                } else {
                    let r = db.exec(&sql);
                    note(inv, What::Q(false, st, sql, r));
                }
            }
            Op::Batch(list) if !list.is_empty() && !list.iter().any(|s| matches!(s, St::Raw(_))) => {
                let sqls: Vec<String> = list.iter().map(|s| s.sql(Style::default())).collect();
                let refs: Vec<&str> = sqls.iter().map(|s| s.as_str()).collect();
                story(&format!("batch {}", sqls.join(" ;; ")));
                let r = db.batch(&refs);
                note(inv, What::Batch(list, sqls.join(" ;; "), r));
            }
            Op::Flush => {
                story("flush");
                let r = db.flush();
                note(inv, What::Flush(r));
            }
            Op::Vacuum => {
                story("vacuum");
                let r = db.vacuum().map(|_| ());
                note(inv, What::Vacuum(r));
            }
            Op::Analyze => {
                story("analyze");
                let r = db.analyze();
                note(inv, What::Analyze(r));
            }
            _ => {}
        }
    }
    if let Some((s, _)) = ses.take() {
        let inv = tick();
        story("drop session");
        drop(s);
        note(inv, What::End(false, Ok(())));
    }
    story("");
}

/// A transaction as the history shows it.
#[derive(Clone)]
struct Unit {
    who: String,
    /// When it took its snapshot.
    snap: (u64, u64),
    /// When it took effect, if it did.
    commit: Option<(u64, u64)>,
    /// The file operations done when its commit was asked for and acknowledged.
    log: (usize, usize),
    /// Its commit was in progress when the process died.
    maybe: bool,
    /// All its life.
    life: (u64, u64),
    steps: Vec<(St, String, R<Res>)>,
    /// It was a batch that failed as a whole.
    failed: Option<(Vec<St>, String, String)>,
    refused: Option<String>,
    named: BTreeSet<String>,
    schema: bool,
}

impl Unit {
    fn new(who: String, snap: (u64, u64)) -> Unit {
        Unit { who, snap, commit: None, log: (0, 0), maybe: false, life: snap, steps: vec![], failed: None, refused: None, named: BTreeSet::new(), schema: false }
    }
    fn name(&mut self, st: &St) {
        if let Some(t) = st.dml().or(st.ddl()) {
            self.named.insert(t.into());
            self.schema |= st.ddl().is_some();
        }
        if let St::Index { name, .. } = st {
            self.named.insert(name.clone());
        }
    }
    fn meets(&self, o: &Unit) -> bool {
        self.life.0 < o.life.1 && o.life.0 < self.life.1
    }
}

type Near = (BTreeSet<String>, bool, bool);

struct Search<'a> {
    units: &'a [Unit],
    /// For each unit, the names that those running at the same time touched, and whether ANALYZE or VACUUM ran.
    near: Vec<Near>,
    found: &'a BTreeMap<String, Vec<String>>,
    seen: HashSet<u64>,
    nodes: u64,
    limit: u64,
    /// How far the best attempt got, and what stopped it.
    best: (usize, String),
    unsettled: bool,
    base: Ids,
    result: Option<State>,
}

#[derive(Clone)]
struct Node {
    m: Model,
    /// 0: not begun; 1: running; 2: over.
    phase: Vec<u8>,
    run: BTreeMap<usize, (u64, Arc<(State, Writes)>)>,
    order: u64,
}

fn mix(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::hash::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl<'a> Search<'a> {
    fn new(units: &'a [Unit], near: Vec<Near>, found: &'a BTreeMap<String, Vec<String>>, base: Ids) -> Search<'a> {
        Search { units, near, found, seen: HashSet::new(), nodes: 0, limit: 150_000, best: (0, String::new()), unsettled: false, base, result: None }
    }

    fn excused(&self, u: usize, st: Option<&St>, e: &str) -> bool {
        let (names, analyzed, vacuumed) = &self.near[u];
        if *vacuumed {
            return true;
        }
        if !matches!(kind_of(e), "conflict" | "unique") {
            return false;
        }
        let unit = &self.units[u];
        let hit = match st {
            Some(st) => {
                st.dml().or(st.ddl()).is_some_and(|t| names.contains(t)) || matches!(st, St::Index { name, .. } if names.contains(name)) || (st.ddl().is_some() && *analyzed)
            }
            None => unit.named.iter().any(|n| names.contains(n)) || (unit.schema && *analyzed),
        };
        hit
    }

    /// What a unit does given what was committed when it began.
    fn eval(&mut self, u: usize, from: &State) -> Result<(State, Writes), String> {
        let unit = &self.units[u];
        let mut ids = Ids { row: self.base.row + (u as u64 + 1) * 1_000_000, table: self.base.table + (u as u64 + 1) * 1000 };
        let mut work = from.clone();
        let mut w = Writes::default();
        for (st, sql, r) in &unit.steps {
            if !work.typed(st) {
                if r.is_ok() {
                    self.unsettled = true;
                }
                continue;
            }
            let (e, next, eff) = work.run(st, &mut ids);
            match (&e, r) {
                (Expect::Fail(_) | Expect::Any, Err(_)) => {}
                (_, Err(m)) => {
                    if !self.excused(u, Some(st), m) {
                        return Err(format!("{}: {sql}: failed with {m:?}, although nothing that ran at the same time explains it", unit.who));
                    }
                }
                (_, Ok(res)) => {
                    check_answer(&e, res).map_err(|d| format!("{}: {sql}: {d}", unit.who))?;
                    w.add(eff, st, &work, &next);
                    work = next;
                }
            }
        }
        if let Some((list, sql, m)) = &unit.failed {
            for st in list {
                if !work.typed(st) {
                    return Ok((from.clone(), Writes::default()));
                }
                let (e, next, _) = work.run(st, &mut ids);
                if matches!(e, Expect::Fail(_) | Expect::Any) || self.excused(u, Some(st), m) {
                    return Ok((from.clone(), Writes::default()));
                }
                work = next;
            }
            if self.excused(u, None, m) {
                return Ok((from.clone(), Writes::default()));
            }
            return Err(format!("{}: batch {sql}: failed with {m:?}, although nothing that ran at the same time explains it", unit.who));
        }
        Ok((work, w))
    }

    fn key(&self, n: &Node) -> u64 {
        let begun: Vec<(usize, u64)> = n.run.iter().map(|(u, (s, _))| (*u, *s)).collect();
        mix(&(n.order, &n.phase, begun))
    }

    fn complain(&mut self, depth: usize, why: String) {
        if let Ok(p) = std::env::var("AXSIM_DEBUG") {
            use std::io::Write;
            let _ = std::fs::OpenOptions::new().create(true).append(true).open(p).map(|mut f| writeln!(f, "{depth}: {why}"));
        }
        if depth >= self.best.0 {
            self.best = (depth, why);
        }
    }

    fn go(&mut self, n: Node, depth: usize) -> bool {
        if self.unsettled || self.nodes >= self.limit {
            return true;
        }
        self.nodes += 1;
        let k = self.key(&n);
        if !self.seen.insert(k) {
            return false;
        }
        // What has to come next at the latest.
        let mut first_end = u64::MAX;
        let mut left = false;
        for (u, unit) in self.units.iter().enumerate() {
            match n.phase[u] {
                0 => first_end = first_end.min(unit.snap.1),
                1 => first_end = first_end.min(unit.commit.unwrap().1),
                _ => continue,
            }
            left = true;
        }
        if !left {
            let mut got: BTreeMap<String, Vec<String>> = n.m.committed.tables.iter().map(|(k, t)| (k.clone(), t.sorted())).collect();
            for (k, t) in &n.m.committed.tables {
                got.insert(format!("{k}, its columns"), shape(columns_wanted(t), t.uniq.iter().map(|u| u.cols.clone()).collect()));
            }
            if got == *self.found {
                self.result = Some(n.m.committed);
                return true;
            }
            let mut d = String::new();
            let names = |m: &BTreeMap<String, Vec<String>>| m.keys().cloned().collect::<Vec<_>>().join(" ");
            if names(&got) != names(self.found) {
                d = format!("the tables found at the end are {}, the history leaves {}", names(self.found), names(&got));
            } else if let Some((t, w)) = got.iter().find(|(t, w)| self.found[*t] != **w) {
                d = format!("the contents of {t} found at the end: {}", diff(w, &self.found[t]));
            }
            self.complain(depth, d);
            return false;
        }
        let mut cands: Vec<(u64, usize)> = Vec::new();
        for (u, unit) in self.units.iter().enumerate() {
            let iv = match n.phase[u] {
                0 => unit.snap,
                1 => unit.commit.unwrap(),
                _ => continue,
            };
            if iv.0 < first_end {
                cands.push((iv.1, u));
            }
        }
        cands.sort();
        for (_, u) in cands {
            let mut next = n.clone();
            if n.phase[u] == 0 {
                match self.eval(u, &n.m.committed) {
                    Err(why) if self.units[u].maybe => {
                        self.complain(depth, why);
                        next.phase[u] = 2;
                    }
                    Err(why) => {
                        self.complain(depth, why);
                        continue;
                    }
                    Ok((work, w)) => {
                        // Nothing to commit, nothing to wait for.
                        if self.units[u].commit.is_some() && !(w.changed.is_empty() && w.inserted.is_empty() && !w.schema) {
                            next.phase[u] = 1;
                            next.run.insert(u, (next.m.seq, Arc::new((work, w))));
                        } else {
                            next.phase[u] = 2;
                        }
                    }
                }
            } else {
                let (begin, x) = next.run.remove(&u).unwrap();
                if self.units[u].maybe {
                    // The commit in progress left nothing.
                    let mut without = next.clone();
                    without.phase[u] = 2;
                    if self.go(without, depth + 1) {
                        return true;
                    }
                }
                if let Err((_, why)) = next.m.merge(begin, &x.1, &x.0) {
                    self.complain(depth, format!("{}: {why}", self.units[u].who));
                    continue;
                }
                let low = next.run.values().map(|(b, _)| *b).min().unwrap_or(next.m.seq);
                next.m.history.retain(|(s, _)| *s > low);
                next.phase[u] = 2;
                // What it did depends on what it saw.
                next.order = mix(&(next.order, u, begin));
            }
            if self.go(next, depth + 1) {
                return true;
            }
        }
        false
    }
}

/// How a table is defined.
fn shape(cols: Vec<String>, uniq: BTreeSet<Vec<String>>) -> Vec<String> {
    cols.into_iter().chain(uniq.into_iter().map(|u| format!("unique {}", u.join(", ")))).collect()
}

/// The rows of every table, and its columns.
fn contents(db: &Db) -> R<BTreeMap<String, Vec<String>>> {
    let mut found: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let cat = facade::catalog(&db.db, 100_000).map_err(|e| format!("the catalog cannot be read: {e}"))?;
    for r in cat.relations.iter().filter(|r| r.is_table && r.xmax.is_none()) {
        match db.exec(&format!("SELECT * FROM {}", r.name)) {
            Ok(Res::Rows { rows, .. }) => {
                let mut v: Vec<String> = rows.iter().map(|r| show_row(r)).collect();
                v.sort();
                found.insert(r.name.clone(), v);
                found.insert(format!("{}, its columns", r.name), shape(columns_of(r), index_columns(r)));
            }
            x => return Err(format!("SELECT * FROM {} gives {x:?}", r.name)),
        }
    }
    Ok(found)
}

pub fn run(sim: &'static Sim, plan: &Value, out: &mut Outcome) {
    threads(sim, plan, out);
    // Nothing that happens before the death is what these properties are about.
    if plan["points"].as_array().is_some_and(|p| !p.is_empty()) {
        let prop = plan["prop"].as_str().unwrap_or("");
        out.violations.retain(|v| v.detail.contains(DEATH) && relevant(prop, &v.class, &v.detail));
    }
}

const DEATH: &str = "the process dies";

fn threads(sim: &'static Sim, plan: &Value, out: &mut Outcome) {
    let knobs: Knobs = serde_json::from_value(plan["knobs"].clone()).unwrap();
    let setup: Vec<Op> = serde_json::from_value(plan["setup"].clone()).unwrap();
    let threads: Vec<Vec<Op>> = serde_json::from_value(plan["threads"].clone()).unwrap();
    let path = PathBuf::from("/t/axmos.db");
    let points: Vec<(u8, u32)> = serde_json::from_value(plan["points"].clone()).unwrap_or_default();
    let prop = plan["prop"].as_str().unwrap_or("").to_string();
    let dying = !points.is_empty();
    let dir = PathBuf::from("/t");
    if dying {
        sim.fs(|f| f.start_log(&dir));
    }
    sim.set_preemption(false);
    // The start is single.
    let (db, state, ids) = {
        let Some(mut r) = Run::new(sim, out, path.clone(), knobs) else { return };
        for (n, op) in setup.iter().enumerate() {
            if !r.step(n, op) {
                if dying {
                    out.violations.clear();
                }
                return;
            }
        }
        r.release()
    };
    let from = sim.log_len();
    let db = Arc::new(db);
    let clock = Arc::new(AtomicU64::new(1));
    let mut all = Vec::new();
    let mut clients = Vec::new();
    sim.set_preemption(true);
    for (i, ops) in threads.iter().enumerate() {
        let calls = Arc::new(Mutex::new(Vec::new()));
        all.push(calls.clone());
        let (db, ops, clock) = (db.clone(), ops.clone(), clock.clone());
        clients.push(sim.spawn_client(Box::new(move || client(sim, db, ops, i, clock, calls))));
    }
    for c in clients {
        sim.join_thread(c);
    }
    sim.set_preemption(false);
    let log = if dying { relative(sim.fs(|f| f.stop_log()), &dir) } else { Vec::new() };
    let all: Vec<Vec<Call>> = all.into_iter().map(|c| std::mem::take(&mut *c.lock().unwrap())).collect();

    let mut lines: Vec<(u64, String)> = Vec::new();
    for (i, calls) in all.iter().enumerate() {
        for c in calls {
            lines.push((c.inv, format!("[{}..{}] T{i}: {}", c.inv, c.ret, c.text())));
            out.see(c.text().as_bytes());
        }
    }
    lines.sort();
    let mut history: String = lines.iter().map(|l| format!("\n   {}", l.1)).collect();
    let p = sim.take_panics();
    if !p.is_empty() {
        out.fail("panic", format!("a thread of the engine panicked: {}{history}", p.join("; ")));
        return;
    }
    let db = match Arc::try_unwrap(db) {
        Ok(d) => d,
        Err(_) => {
            out.fail("harness", "the handle is still shared");
            return;
        }
    };

    // Transactions out of calls.
    let mut units: Vec<Unit> = Vec::new();
    let mut special: Vec<(u64, u64, bool)> = Vec::new();
    for (i, calls) in all.iter().enumerate() {
        let mut open: Option<Unit> = None;
        let mut n = 0;
        for c in calls {
            let iv = (c.inv, c.ret);
            let mut err = |e: &str, what: &str, out: &mut Outcome| {
                if kind_of(e) == "internal" {
                    out.fail("internal-error", format!("T{i}: {what}: {e}{history}"));
                }
            };
            out.checks += 1;
            match &c.what {
                What::Begin(r) => {
                    if let Err(e) = r {
                        out.fail("spurious-error", format!("T{i}: a session cannot be opened: {e}{history}"));
                    } else {
                        n += 1;
                        open = Some(Unit::new(format!("T{i} transaction {n}"), iv));
                    }
                }
                What::Q(in_session, st, sql, r) => {
                    if let Err(e) = r {
                        err(e, sql, out);
                        out.probe(&format!("error: {}", kind_of(e)));
                    } else {
                        out.probe(if st.is_query() { "query" } else { "change" });
                    }
                    let step = (st.clone(), sql.clone(), r.clone());
                    if *in_session {
                        let u = open.as_mut().unwrap();
                        u.name(st);
                        u.steps.push(step);
                    } else {
                        let mut u = Unit::new(format!("T{i} [{}..{}]", c.inv, c.ret), iv);
                        u.name(st);
                        u.steps.push(step);
                        u.commit = r.is_ok().then_some(iv);
                        u.log = c.log;
                        units.push(u);
                    }
                }
                What::Batch(list, sql, r) => {
                    let mut u = Unit::new(format!("T{i} [{}..{}]", c.inv, c.ret), iv);
                    list.iter().for_each(|st| u.name(st));
                    u.log = c.log;
                    match r {
                        Ok(v) if v.len() != list.len() => out.fail("wrong-count", format!("T{i}: a batch of {} statements gave {} answers{history}", list.len(), v.len())),
                        Ok(v) => {
                            out.probe("batch");
                            u.steps = list.iter().zip(v).map(|(s, r)| (s.clone(), s.sql(Style::default()), Ok(r.clone()))).collect();
                            u.commit = Some(iv);
                        }
                        Err(e) => {
                            err(e, sql, out);
                            u.failed = Some((list.clone(), sql.clone(), e.clone()));
                        }
                    }
                    units.push(u);
                }
                What::End(commit, r) => {
                    let Some(mut u) = open.take() else { continue };
                    u.life.1 = c.ret;
                    match r {
                        Ok(()) if *commit => {
                            u.commit = Some(iv);
                            u.log = c.log;
                            out.probe("commit");
                        }
                        Ok(()) => out.probe("rollback"),
                        Err(e) => {
                            err(e, "commit or rollback", out);
                            out.probe("commit refused");
                            u.refused = Some(e.clone());
                        }
                    }
                    units.push(u);
                }
                What::Flush(r) => {
                    if let Err(e) = r {
                        out.fail("spurious-error", format!("T{i}: flush failed with {e}{history}"));
                    }
                    out.probe("flush");
                }
                What::Vacuum(r) => {
                    special.push((c.inv, c.ret, true));
                    if let Err(e) = r {
                        out.fail("spurious-error", format!("T{i}: VACUUM failed with {e}{history}"));
                    }
                    out.probe("vacuum");
                }
                What::Analyze(r) => {
                    special.push((c.inv, c.ret, false));
                    if let Err(e) = r {
                        err(e, "analyze", out);
                        out.probe("analyze refused");
                    } else {
                        out.probe("analyze");
                    }
                }
            }
            if !out.violations.is_empty() {
                return;
            }
        }
    }
    if units.len() > 1 {
        out.nontrivial = true;
    }
    let overlapping = units.iter().enumerate().map(|(i, u)| units[..i].iter().filter(|o| u.meets(o)).count() as u64).sum::<u64>();
    out.probe_n("pairs of concurrent transactions", overlapping);
    let near: Vec<Near> = (0..units.len())
        .map(|i| {
            let mut names = BTreeSet::new();
            for (j, o) in units.iter().enumerate() {
                if j != i && o.meets(&units[i]) {
                    names.extend(o.named.iter().cloned());
                }
            }
            let at = |v: bool| special.iter().any(|s| s.2 == v && s.0 < units[i].life.1 && units[i].life.0 < s.1);
            (names, at(false), at(true))
        })
        .collect();

    // What is there now.
    let found = match contents(&db) {
        Ok(f) => f,
        Err(e) => {
            out.fail("wrong-rows", format!("{e} in the end{history}"));
            return;
        }
    };
    for (t, rows) in found.iter().filter(|f| !f.0.contains(", its")) {
        let some: Vec<String> = rows.iter().take(8).map(|r| format!("({r})")).collect();
        history.push_str(&format!("\n   in the end {t} has {} rows: {}", rows.len(), some.join(" ")));
    }
    let history = history;
    let mut s = Search::new(&units, near.clone(), &found, ids);
    // Refused commits need a reason whatever the order.
    for (u, unit) in units.iter().enumerate() {
        if let Some(e) = &unit.refused
            && !s.excused(u, None, e)
        {
            out.fail("spurious-error", format!("{}: commit or rollback failed with {e:?}, although nothing that ran at the same time explains it{history}", unit.who));
            return;
        }
    }
    let start = Node { m: Model::of(state.clone(), ids), phase: vec![0; units.len()], run: BTreeMap::new(), order: 7 };
    let ok = s.go(start, 0);
    out.probe_n("orders tried", s.nodes);
    out.checks += units.len() as u64;
    out.state(hash_str(&format!("{} {}", overlapping.min(40), s.nodes.min(64))));
    if !ok {
        let why = s.best.1.clone();
        let class = if why.contains("failed with") {
            "spurious-error"
        } else if why.contains("both committed") {
            "lost-update"
        } else if why.contains("concurrent transactions left") || why.contains("(constraint)") {
            "constraint-broken"
        } else {
            "not-serializable"
        };
        out.fail(class, format!("no order of the transactions explains the answers; the best attempt ends with: {why}{history}"));
        return;
    }
    let Some(last) = s.result.take() else {
        out.probe(if s.unsettled { "unsettled" } else { "search given up" });
        return;
    };
    out.probe("explained");
    if dying {
        drop(db);
        sim.fs(|f| f.mount(&dir, &Image::new()));
        let d = Deaths { sim, out, knobs, state, ids, units: &units, near: &near, log: &log, from, prop: &prop };
        d.check(&points, &history);
        return;
    }
    // From here on it is single again: the stored state, a reopening and some work.
    let mut r = Run::adopt(sim, out, path, knobs, db, last, Ids { row: ids.row + 1_000_000_000, table: ids.table + 1_000_000 });
    r.story(format!("after the threads{history}\n"));
    if !r.check(900) || !r.step(901, &Op::Reopen(Knobs { cache: 2000, ..knobs })) {
        return;
    }
    r.finish();
}

/// The process dies somewhere in the work of the threads.
struct Deaths<'a> {
    sim: &'static Sim,
    out: &'a mut Outcome,
    knobs: Knobs,
    state: State,
    ids: Ids,
    units: &'a [Unit],
    near: &'a [Near],
    log: &'a [FsOp],
    from: usize,
    prop: &'a str,
}

impl Deaths<'_> {
    fn place(&self, (kind, x): (u8, u32)) -> usize {
        let n = self.log.len();
        let pick = |v: Vec<usize>| if v.is_empty() { None } else { Some(v[((x as u64 * v.len() as u64) >> 32) as usize]) };
        let uniform = self.from + ((x as u64 * (n - self.from + 1) as u64) >> 32) as usize;
        let on = |name: &str| (self.from..n).filter(|i| self.log[*i].path().to_string_lossy().contains(name)).collect::<Vec<_>>();
        let commits = || self.units.iter().filter(|u| u.commit.is_some());
        match kind {
            // Right after a commit was acknowledged.
            1 => pick(commits().map(|u| u.log.1).collect()).unwrap_or(uniform),
            // While something commits.
            2 => pick(commits().flat_map(|u| u.log.0..u.log.1).collect()).unwrap_or(uniform),
            3 => pick(on("axmos.db")).unwrap_or(uniform),
            4 => pick(on("axmos.jnl")).unwrap_or(uniform),
            7 => n,
            _ => uniform,
        }
    }

    fn check(self, points: &[(u8, u32)], history: &str) {
        let mut points: Vec<(usize, usize)> =
            points.iter().map(|p| within(self.log, self.place((p.0 & 15, p.1)).clamp(self.from, self.log.len()), *p)).collect();
        points.sort();
        points.dedup();
        let mut whole = Image::new();
        let mut done = 0;
        for (i, (k, part)) in points.into_iter().enumerate() {
            while done < k {
                apply(&mut whole, &self.log[done]);
                done += 1;
            }
            let mut image = whole.clone();
            if part > 0 {
                apply(&mut image, &self.log[k].first(part));
                self.out.probe("death in the middle of a write");
            }
            let next = self.log.get(k).map(|o| o.short()).unwrap_or("the end".into());
            let how = if part > 0 { format!("{part} bytes into") } else { "before".into() };
            let story = format!("{DEATH} after {k} of {} file operations ({how} {next}), ", self.log.len());
            // What had been acknowledged has to be there, what was committing may be.
            let mut units = Vec::new();
            let mut near = Vec::new();
            for (u, n) in self.units.iter().zip(self.near) {
                let changes = u.steps.iter().any(|(st, _, r)| r.is_ok() && !st.is_query());
                if !changes || u.commit.is_none() || u.log.0 > k {
                    continue;
                }
                let mut u = u.clone();
                u.maybe = u.log.1 > k;
                self.out.probe(if u.maybe { "commits in progress at a death" } else { "commits before a death" });
                units.push(u);
                near.push(n.clone());
            }
            self.out.checks += 1;
            let dir = PathBuf::from(format!("/d{i}"));
            self.sim.fs(|f| f.mount(&dir, &image));
            let path = dir.join("axmos.db");
            let db = Db::open(&path, self.knobs);
            let panics = self.sim.take_panics().join("; ");
            let db = match db {
                Ok(db) if panics.is_empty() => db,
                Ok(_) => return self.out.fail("panic", format!("{story}opening the database: {panics}{history}")),
                Err(e) => return self.out.fail("open-failed", format!("{story}the database does not open: {e} {panics}{history}")),
            };
            let found = match contents(&db) {
                Ok(f) => f,
                Err(e) => return self.out.fail("wrong-rows", format!("{story}after reopening: {e}{history}")),
            };
            let start = || Node { m: Model::of(self.state.clone(), self.ids), phase: vec![0; units.len()], run: BTreeMap::new(), order: 7 };
            let mut s = Search::new(&units, near.clone(), &found, self.ids);
            let ok = s.go(start(), 0);
            self.out.probe_n("orders tried", s.nodes);
            if !ok {
                let why = s.best.1.clone();
                // Had fewer been acknowledged, would it be explained?
                let mut less = units.clone();
                less.iter_mut().for_each(|u| u.maybe = true);
                let mut t = Search::new(&less, near, &found, self.ids);
                let lost = t.go(start(), 0);
                let class = if lost { "lost-commit" } else { "uncommitted-visible" };
                let rows: String = found.iter().map(|(t, r)| format!("\n   after reopening {t} has {} rows: {}", r.len(), r.iter().take(10).map(|r| format!("({r})")).collect::<Vec<_>>().join(" "))).collect();
                let sure: Vec<&str> = units.iter().filter(|u| !u.maybe).map(|u| u.who.as_str()).collect();
                let open: Vec<&str> = units.iter().filter(|u| u.maybe).map(|u| u.who.as_str()).collect();
                return self.out.fail(
                    class,
                    format!("{story}with the commits of [{}] acknowledged and those of [{}] in progress; after reopening the contents are not theirs: {why}{rows}{history}", sure.join(", "), open.join(", ")),
                );
            }
            let Some(last) = s.result.take() else {
                self.out.probe(if s.unsettled { "unsettled" } else { "search given up" });
                continue;
            };
            self.out.nontrivial = true;
            self.out.probe("recovered as acknowledged");
            let mut r = Run::adopt(self.sim, self.out, path, self.knobs, db, last, Ids { row: self.ids.row + 1_000_000_000, table: self.ids.table + 1_000_000 });
            r.contents_only = matches!(self.prop, "C01" | "C02");
            r.story(format!("{story}and reopened{history}\n"));
            if !r.check(900) || !r.step(901, &Op::Reopen(self.knobs)) || !r.finish() {
                return;
            }
            self.sim.fs(|f| f.mount(&dir, &Image::new()));
        }
    }
}

/// Gives tables and indexes of their own to a plan.
fn rename(v: &mut Value, prefix: &str) {
    match v {
        Value::String(s) => {
            let named = s.len() > 1 && (s.starts_with('t') || s.starts_with('i')) && s[1..].bytes().all(|b| b.is_ascii_digit());
            if named {
                *s = format!("{prefix}{s}");
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| rename(x, prefix)),
        Value::Object(o) => o.values_mut().for_each(|x| rename(x, prefix)),
        _ => {}
    }
}

pub fn generate(prop: &str, rng: &mut Rng, _i: u64, thorough: bool) -> Value {
    let dying = matches!(prop, "C01" | "C02" | "C08");
    let n = 2 + rng.usize(4);
    let mut p = sqlgen::profile("C04", rng, false);
    p.sessions = 1;
    p.tables = 1 + rng.usize(2);
    p.keys = *rng.pick(&[2, 4, 10, 40]);
    if prop == "C07" {
        p.keys = *rng.pick(&[2, 3, 5]);
    }
    p.bulk = *rng.pick(&[1, 1, 3, 12]);
    p.long = *rng.pick(&[8, 20, 60, 400, 3000]);
    p.commit = if prop == "C03" { 400 } else { 750 };
    p.ops = p.tables * 2 + rng.usize(6);
    p.w = [40, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let (setup, (state, ids)) = sqlgen::ops_from(rng, &p, (State::default(), Ids::default()));
    let mut threads = Vec::new();
    let own_tables = matches!(prop, "C11" | "C15") || rng.chance(300);
    let vacuum = rng.chance(if prop == "C13" { 800 } else { 150 });
    for t in 0..n {
        let mut q = p.clone();
        q.ops = 3 + rng.usize(if thorough { 12 } else { 8 });
        q.w = [40, 15, 0, 12, 14, 4, 1, if vacuum { 2 } else { 0 }, 1, 0, 0, 4, 0];
        if prop == "C04" {
            q.w[1] = 35;
            q.w[3] = 20;
        }
        if prop == "C03" {
            q.w[11] = 10;
            q.w[3] = 20;
        }
        q.dml = *rng.pick(&[[40, 35, 20, 5], [15, 70, 15, 0], [60, 10, 30, 0]]);
        let mut ids = ids;
        ids.table += 1 + t as u64;
        if own_tables && rng.chance(400) {
            q.w[2] = 25;
            q.ops += 2;
            let (ops, _) = sqlgen::ops_from(rng, &q, (State::default(), Ids { row: 0, table: t as u64 + 1 }));
            let mut v = json!(ops);
            rename(&mut v, &format!("p{t}"));
            threads.push(v);
        } else {
            let (ops, _) = sqlgen::ops_from(rng, &q, (state.clone(), ids));
            threads.push(json!(ops));
        }
    }
    let k = Knobs {
        page: 4096,
        cache: if dying { *rng.pick(&[64, 200, 2000]) } else { *rng.pick(&[400, 2000, 2000]) },
        pool: 1 + rng.usize(4),
        min_keys: 3,
        sib: 2,
    };
    let preempt = *rng.pick(&[3u64, 20, 60, 150, 400]);
    let points: Vec<(u8, u32)> = if dying {
        (0..3 + rng.usize(if thorough { 12 } else { 4 })).map(|_| (rng.weighted(&[15, 30, 30, 10, 5, 0, 0, 5]) as u8 | if rng.chance(300) { 16 } else { 0 }, rng.next() as u32)).collect()
    } else {
        Vec::new()
    };
    json!({"knobs": k, "setup": setup, "threads": threads, "points": points, "sched": {"seed": rng.next(), "preempt": preempt, "script": null, "max_steps": 50_000_000u64}})
}
