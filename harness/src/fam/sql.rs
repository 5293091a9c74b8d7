//! Statements of several sessions, one at a time in an order the plan decides, against the reference model of sqlm:
//! every answer, every rejection and, at quiescent points, the stored state itself are compared.
use super::{audit, sqlgen, sqlm::*};
use crate::{
    engine::*,
    orch::{Outcome, fnv, hash_str},
    sim::{IoFault, Sim},
};
use axmosdb::{DataType, tcp::session::Session, verif::facade};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::{
    collections::{BTreeMap, BTreeSet},
    path::PathBuf,
    sync::Arc,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Begin(usize),
    Commit(usize),
    Rollback(usize),
    DropS(usize),
    /// Session (0: its own transaction), statement, way of writing it.
    Q(usize, St, u8),
    Batch(Vec<St>),
    Flush,
    Vacuum,
    /// One with the disk failing.
    Faulty(IoFault, Box<Op>),
    /// VACUUM, and what remains is in proportion to what is there.
    Space,
    Analyze,
    Reopen(Knobs),
    Check,
}

pub fn style(n: u8) -> Style {
    Style { flip: n & 1 != 0, commute: n & 2 != 0, opaque: n & 4 != 0, swap: n & 8 != 0, extra: n & 16 != 0, derived: n & 32 != 0 }
}

pub fn kind_of(e: &str) -> &'static str {
    let l = e.to_lowercase();
    if l.contains("conflict on tuple") {
        "conflict"
    } else if l.contains("unique constraint") || l.contains("duplicate") {
        "unique"
    } else if l.contains("out of memory") {
        "oom"
    } else if l.contains("panic") || l.contains("i/o error") || l.contains("corrupt") || l.contains("poison") || l.contains("worker") || l.contains("channel") {
        "internal"
    } else {
        "other"
    }
}

#[derive(Clone, Default)]
pub struct Writes {
    pub changed: BTreeSet<(u64, u64)>,
    pub inserted: BTreeSet<(u64, u64)>,
    claims: BTreeSet<(u64, String)>,
    /// Tables by name.
    dml: BTreeSet<String>,
    ddl: BTreeSet<String>,
    /// Tables of which only properties of columns and constraints changed, with those before.
    meta: BTreeMap<String, (Vec<Col>, Vec<Uniq>)>,
    /// Whatever a statement named, whether it had an effect or not.
    pub named: BTreeSet<String>,
    /// The tables whose schema changed as they were before.
    base: BTreeMap<String, Option<u64>>,
    /// There was a schema change among them.
    pub schema: bool,
}

impl Writes {
    fn alters(&self, t: &str) -> bool {
        self.ddl.contains(t) || self.meta.contains_key(t)
    }
    pub fn add(&mut self, e: Effect, st: &St, before: &State, after: &State) {
        if let Some(t) = st.dml().or(st.ddl()) {
            self.named.insert(t.into());
            self.schema |= st.ddl().is_some();
        }
        if let St::Index { name, .. } = st {
            self.named.insert(name.clone());
        }
        if let Some(t) = st.dml()
            && !(e.changed.is_empty() && e.inserted.is_empty())
        {
            self.dml.insert(t.into());
        }
        self.changed.extend(e.changed);
        self.inserted.extend(e.inserted);
        self.claims.extend(e.claims);
        let shape = |s: &State| st.ddl().and_then(|t| s.tables.get(t)).map(|t| t.shape);
        if let Some(t) = st.ddl()
            && shape(before) != shape(after)
        {
            self.base.entry(t.into()).or_insert_with(|| before.tables.get(t).map(|t| t.id));
            match (st, before.tables.get(t)) {
                (
                    St::SetDefault { .. } | St::DropDefault { .. } | St::SetNN { .. } | St::DropNN { .. } | St::AddUniq { .. } | St::AddPk { .. } | St::Index { .. },
                    Some(b),
                ) => {
                    self.meta.entry(t.into()).or_insert_with(|| (b.cols.clone(), b.uniq.clone()));
                }
                _ => {
                    self.ddl.insert(t.into());
                }
            }
        }
    }
}

struct Tx {
    work: State,
    begin: u64,
    w: Writes,
    updates: usize,
    /// Aborted by VACUUM.
    dead: bool,
    /// A statement failed in it for lack of memory.
    reads: u64,
}

#[derive(Clone, Default)]
pub struct Model {
    pub committed: State,
    pub seq: u64,
    pub history: Vec<(u64, Writes)>,
    /// When ANALYZE last ran.
    analyzed: u64,
    ids: Ids,
}

impl Model {
    pub fn of(state: State, ids: Ids) -> Model {
        Model { committed: state, ids, ..Model::default() }
    }

    /// Makes the changes of a transaction those of the committed state.
    pub fn merge(&mut self, begin: u64, w: &Writes, work: &State) -> Result<(), (&'static str, String)> {
        // What was set and set back has not changed, and what is reshaped too is no longer the same.
        let mut w = w.clone();
        w.meta.retain(|n, before| !w.ddl.contains(n) && work.tables.get(n).is_some_and(|t| t.cols != before.0 || t.uniq != before.1));
        // A row that came and went was never there for others.
        let (changed, inserted) = (&w.changed, &w.inserted);
        let stays = |n: &String| {
            let Some(t) = work.tables.get(n) else { return true };
            changed.difference(inserted).any(|(tid, _)| *tid == t.id) || inserted.iter().any(|(tid, r)| *tid == t.id && t.rows.contains_key(r))
        };
        w.dml.retain(stays);
        let w = &w;
        for (s, h) in self.history.iter() {
            if *s <= begin {
                continue;
            }
            if let Some((t, r)) = w.changed.intersection(&h.changed).next() {
                let msg = format!("two concurrent transactions changed row {r} of table {t} and both committed");
                return Err(("lost-update", msg));
            }
            // A drop comes after whatever else happened to the table.
            let dropped = |n: &String| {
                let base = w.base.get(n).copied().flatten();
                let now = |s: &State| s.tables.get(n).map(|t| t.id);
                base.is_some() && now(&self.committed) == base && now(work) != base
            };
            let race = |n: &&String| work.tables.contains_key(*n) && !dropped(n) && (h.alters(n) || h.dml.contains(*n));
            // What was done to a table dropped since came before that.
            let gone = |n: &String| work.tables.get(n).is_some_and(|t| self.committed.tables.get(n).is_none_or(|c| c.id != t.id));
            let late = w.dml.iter().find(|n| h.ddl.contains(*n) && !gone(n)).or(w.meta.keys().find(|n| h.alters(n)));
            if let Some(n) = w.ddl.iter().find(race).or(late) {
                let msg = format!("a transaction that changed {n} committed, although a concurrent one with a change of its schema or rows had committed");
                return Err(("schema-race", msg));
            }
        }
        let mut next = self.committed.clone();
        for n in &w.ddl {
            match work.tables.get(n) {
                Some(t) => {
                    next.tables.insert(n.clone(), t.clone());
                }
                None => {
                    next.tables.remove(n);
                }
            }
        }
        for n in w.meta.keys() {
            let (Some(from), Some(to)) = (work.tables.get(n), next.tables.get(n)) else { continue };
            if from.id != to.id {
                continue;
            }
            let mut t = (**to).clone();
            t.cols = from.cols.clone();
            t.uniq = from.uniq.clone();
            next.tables.insert(n.clone(), Arc::new(t));
        }
        for n in w.dml.iter().filter(|n| !w.ddl.contains(*n)) {
            let (Some(from), Some(to)) = (work.tables.get(n), next.tables.get(n)) else { continue };
            if from.id != to.id {
                continue;
            }
            let mut t = (**to).clone();
            for (tid, rid) in w.changed.iter().chain(&w.inserted) {
                if *tid != from.id {
                    continue;
                }
                match from.rows.get(rid) {
                    Some(r) => t.rows.insert(*rid, r.clone()),
                    None => t.rows.remove(rid),
                };
            }
            next.tables.insert(n.clone(), Arc::new(t));
        }
        for n in w.meta.keys().chain(&w.dml) {
            if let Some(b) = next.tables.get(n).and_then(|t| t.broken()) {
                return Err(("constraint-broken", format!("concurrent transactions left table {n} with {b}")));
            }
        }
        self.committed = next;
        self.seq += 1;
        if !(w.changed.is_empty() && w.inserted.is_empty() && !w.schema) {
            self.history.push((self.seq, w.clone()));
        }
        Ok(())
    }
}

pub struct Run<'a> {
    pub sim: &'static Sim,
    pub out: &'a mut Outcome,
    db: Option<Db>,
    ses: BTreeMap<usize, (Session, Tx)>,
    m: Model,
    path: PathBuf,
    knobs: Knobs,
    /// A digest of the answers alone.
    answers: u64,
    oom_ok: bool,
    /// During an operation that the disk fails: how many faults there had been before it.
    fired: Option<u64>,
    /// The most rows in a table and bytes there have been at a space check.
    most: (u64, u64),
    trace: Vec<String>,
    /// Ask for what a finding on record prevents.
    pub strict: bool,
    /// Leave the way things are stored to others.
    pub contents_only: bool,
    /// Put before every complaint.
    story: String,
    /// Log position and state after each acknowledged operation.
    pub marks: Vec<Mark>,
}

pub struct Mark {
    pub log: usize,
    pub state: State,
    /// What an operation would have committed had it succeeded.
    pub maybe: Option<State>,
    pub what: String,
}

pub fn run(sim: &'static Sim, plan: &Value, out: &mut Outcome) {
    let ops: Vec<Op> = serde_json::from_value(plan["ops"].clone()).unwrap();
    let variants: Vec<Knobs> = serde_json::from_value(plan["knobs"].clone()).unwrap();
    let faults: Vec<IoFault> = serde_json::from_value(plan["faults"].clone()).unwrap_or_default();
    let mut first: Option<u64> = None;
    for (i, k) in variants.iter().enumerate() {
        let path = PathBuf::from(format!("/v{i}/axmos.db"));
        let Some(mut r) = Run::new(sim, out, path, *k) else { return };
        r.strict = plan["strict"].as_bool().unwrap_or(false);
        if !faults.is_empty() {
            sim.fs(|f| f.arm(faults.clone()));
        }
        for (n, op) in ops.iter().enumerate() {
            if !r.step(n, op) {
                return;
            }
        }
        r.finish();
        let a = r.answers;
        if !out.violations.is_empty() {
            return;
        }
        match first {
            None => first = Some(a),
            Some(f) if f != a => out.fail("config-differs", format!("the answers under {:?} differ from those under {:?}", k, variants[0])),
            _ => {}
        }
    }
}

impl<'a> Run<'a> {
    pub fn new(sim: &'static Sim, out: &'a mut Outcome, path: PathBuf, knobs: Knobs) -> Option<Run<'a>> {
        let db = match Db::create(&path, knobs) {
            Ok(d) => d,
            Err(e) => {
                out.fail("create", format!("a database cannot be created with {knobs:?}: {e}"));
                return None;
            }
        };
        Some(Self::adopt(sim, out, path, knobs, db, State::default(), Ids { row: 0, table: 0 }))
    }

    /// A database that is open and holds `state`.
    pub fn adopt(sim: &'static Sim, out: &'a mut Outcome, path: PathBuf, knobs: Knobs, db: Db, state: State, ids: Ids) -> Run<'a> {
        Run {
            sim,
            out,
            db: Some(db),
            ses: BTreeMap::new(),
            m: Model::of(state, ids),
            path,
            oom_ok: knobs.cache < 200,
            fired: None,
            most: (0, 0),
            knobs,
            answers: 0,
            trace: Vec::new(),
            strict: false,
            contents_only: false,
            story: String::new(),
            marks: Vec::new(),
        }
    }

    pub fn story(&mut self, s: String) {
        self.story = s;
    }

    pub fn ids(&self) -> Ids {
        self.m.ids
    }

    /// Gives up the handle, with what is committed.
    pub fn release(&mut self) -> (Db, State, Ids) {
        self.ses.clear();
        (self.db.take().unwrap(), self.m.committed.clone(), self.m.ids)
    }

    /// Leaves everything as it is at the death of the process.
    pub fn abandon(&mut self) -> bool {
        self.ses.clear();
        self.db = None;
        self.panics()
    }

    fn db(&self) -> &Db {
        self.db.as_ref().unwrap()
    }

    fn bad(&mut self, class: &str, msg: String) -> bool {
        let tail: Vec<String> = self.trace.iter().rev().take(14).rev().cloned().collect();
        let open: Vec<String> = self.ses.iter().map(|(k, t)| format!("s{k}@{}", t.1.begin)).collect();
        let story = self.story.clone();
        self.out.fail(class, format!("{story}{msg}\n  sessions open: {}\n  last operations:\n   {}", open.join(" "), tail.join("\n   ")));
        false
    }

    fn note(&mut self, s: String) {
        let s = if s.len() > 400 { format!("{}... ({} bytes)", s.chars().take(380).collect::<String>(), s.len()) } else { s };
        self.trace.push(s);
        if self.trace.len() > 40 {
            self.trace.drain(0..20);
        }
    }

    fn log_len(&self) -> usize {
        self.sim.log_len()
    }

    /// Records what must be found after a crash from now on.
    pub fn ack(&mut self, what: &str) {
        let m = Mark { log: self.log_len(), state: self.m.committed.clone(), maybe: None, what: what.into() };
        self.marks.push(m);
    }

    fn panics(&mut self) -> bool {
        let p = self.sim.take_panics();
        if p.is_empty() {
            return true;
        }
        self.bad("panic", format!("a thread of the engine panicked: {}", p.join("; ")))
    }

    /// Another transaction that runs at the same time as one that began at `begin` and did something `f` says.
    fn concurrent(&self, me: usize, begin: u64, f: impl Fn(&Writes) -> bool) -> bool {
        self.m.history.iter().any(|(s, w)| *s > begin && f(w)) || self.ses.iter().any(|(k, (_, t))| *k != me && !t.dead && f(&t.w))
    }

    fn may_conflict(&self, me: usize, begin: u64, e: &Effect, st: &St) -> bool {
        let named = |w: &Writes| {
            let t = st.ddl().or(st.dml());
            t.is_some_and(|t| w.named.contains(t)) || matches!(st, St::Index { name, .. } if w.named.contains(name))
        };
        self.concurrent(me, begin, |w| {
            e.changed.iter().any(|x| w.changed.contains(x))
                || e.claims.iter().any(|x| w.claims.contains(x))
                || (st.ddl().is_some() && named(w))
                || (st.dml().is_some_and(|t| w.named.contains(t)) && w.schema)
        }) || (st.ddl().is_some() && self.m.analyzed > begin)
    }

    /// Statements the plan asks for but whose outcome no rule settles are left out.
    fn skip(&self, me: usize, st: &St) -> bool {
        let state = self.ses.get(&me).map_or(&self.m.committed, |(_, t)| &t.work);
        if !state.typed(st) {
            return true;
        }
        let others = |f: &dyn Fn(&Writes) -> bool| self.ses.iter().any(|(k, (_, t))| *k != me && !t.dead && f(&t.w));
        if let Some(t) = st.ddl()
            && others(&|w| w.named.contains(t))
        {
            return true;
        }
        if let St::Index { name, .. } = st
            && others(&|w| w.ddl.contains(name))
        {
            return true;
        }
        if let Some(t) = st.dml()
            && others(&|w| w.schema && w.named.contains(t))
        {
            return true;
        }
        false
    }

    fn faults(&self) -> u64 {
        self.sim.fs(|f| f.fired.values().sum())
    }

    /// The cache was too small, or the disk failed: whatever failed for that reason has no effect.
    fn excused(&self, m: &str) -> bool {
        (kind_of(m) == "oom" && self.oom_ok) || self.fired.is_some_and(|n| self.faults() > n)
    }

    /// Judges the answer to a statement of the transaction that began at `begin` and sees `work`.
    /// Gives the state after it and its effect, or None if it has failed (as it may).
    fn judge(&mut self, me: usize, begin: u64, work: &State, st: &St, sql: &str, r: &R<Res>) -> Result<Option<(State, Effect)>, bool> {
        self.out.checks += 1;
        let (e, next, eff) = work.run(st, &mut self.m.ids);
        if let Err(m) = r {
            if self.excused(m) {
                self.out.probe(if self.fired.is_some() { "the disk failed" } else { "out of memory" });
                return Ok(None);
            }
            if kind_of(m) == "internal" {
                return Err(self.bad("internal-error", format!("{sql}: {m}")));
            }
        }
        match (&e, r) {
            (Expect::Fail(why), Err(_)) => {
                self.out.probe(&format!("rejected: {why}"));
                Ok(None)
            }
            (Expect::Any, Err(_)) => Ok(None),
            (_, Err(m)) => {
                let would = self.judge_effect(work, st);
                if matches!(kind_of(m), "conflict" | "unique") && self.may_conflict(me, begin, &would, st) {
                    self.out.probe("conflict");
                    return Ok(None);
                }
                let class = match kind_of(m) {
                    "conflict" => "spurious-conflict",
                    "unique" => "spurious-unique",
                    _ => "spurious-error",
                };
                Err(self.bad(class, format!("{sql}: failed with {m:?}, although {}", self.expected(&e))))
            }
            (_, Ok(res)) => {
                if let Err(d) = check_answer(&e, res) {
                    let class = match (&e, st) {
                        (Expect::Fail("constraint"), _) => "constraint-accepted",
                        (Expect::Fail(_), _) => "error-accepted",
                        (Expect::Rows(..), _) => "wrong-rows",
                        _ => "wrong-count",
                    };
                    return Err(self.bad(class, format!("{sql}: {d}")));
                }
                Ok(Some((next, eff)))
            }
        }
    }

    fn judge_effect(&mut self, work: &State, st: &St) -> Effect {
        let mut ids = Ids { row: self.m.ids.row, table: self.m.ids.table };
        work.run(st, &mut ids).2
    }

    fn expected(&self, e: &Expect) -> String {
        match e {
            Expect::Count(n) => format!("a count of {n} was expected"),
            Expect::Ddl => "it is a valid schema change".into(),
            Expect::Rows(r, _) => format!("{} rows were expected", r.len()),
            Expect::Fail(w) => format!("it had to fail ({w})"),
            Expect::Any => "-".into(),
        }
    }

    fn answer(&mut self, r: &R<Res>) {
        let s = match r {
            Ok(Res::Rows { rows, .. }) => {
                let mut v: Vec<String> = rows.iter().map(|r| show_row(r)).collect();
                v.sort();
                v.join(";")
            }
            Ok(Res::Ddl(_)) => "ddl".into(),
            Ok(r) => r.show(),
            Err(_) => "error".into(),
        };
        self.answers = fnv(self.answers, s.as_bytes());
        self.out.see(s.as_bytes());
    }

    fn merge(&mut self, begin: u64, w: &Writes, work: &State) -> bool {
        if let Err((class, msg)) = self.m.merge(begin, w, work) {
            return self.bad(class, msg);
        }
        // What no open transaction runs concurrently with is of no use.
        let low = self.ses.values().map(|(_, t)| t.begin).min().unwrap_or(self.m.seq);
        self.m.history.retain(|(s, _)| *s > low);
        true
    }

    pub fn step(&mut self, n: usize, op: &Op) -> bool {
        let before = self.m.committed.clone();
        let _ = before;
        let ok = match op {
            Op::Faulty(f, op) => {
                self.fired = Some(self.faults());
                self.sim.fs(|fs| fs.arm(vec![f.clone()]));
                let ok = self.op(n, op);
                self.sim.fs(|f| f.disarm());
                self.fired = None;
                ok
            }
            op => self.op(n, op),
        };
        if !ok {
            return false;
        }
        self.ack("");
        if std::env::var("AXSIM_AUDIT").is_ok() && !self.structure(n, false) {
            return false;
        }
        self.panics()
    }

    fn maybe(&mut self, work: State) {
        let m = Mark { log: self.log_len(), state: self.m.committed.clone(), maybe: Some(work), what: String::new() };
        self.marks.push(m);
    }

    fn op(&mut self, n: usize, op: &Op) -> bool {
        match op {
            Op::Faulty(_, op) => self.op(n, op),
            Op::Begin(s) => {
                if self.ses.contains_key(s) || *s == 0 {
                    return true;
                }
                match self.db().session() {
                    Ok(x) => {
                        self.note(format!("{n}: s{s}: begin"));
                        let t = Tx { work: self.m.committed.clone(), begin: self.m.seq, w: Writes::default(), updates: 0, dead: false, reads: 0 };
                        self.ses.insert(*s, (x, t));
                        true
                    }
                    Err(e) => self.bad("spurious-error", format!("a session cannot be opened: {e}")),
                }
            }
            Op::Commit(s) => {
                let Some((mut x, t)) = self.ses.remove(s) else { return true };
                // What may be found if this is cut short.
                let pre = (self.m.committed.clone(), self.m.seq, self.m.history.clone());
                if !t.dead {
                    let violations = self.out.violations.len();
                    let merged = self.merge(t.begin, &t.w, &t.work);
                    if merged {
                        let next = self.m.committed.clone();
                        (self.m.committed, self.m.seq, self.m.history) = pre.clone();
                        self.maybe(next);
                    } else {
                        // Fine as long as the engine refuses to commit it.
                        self.out.violations.truncate(violations);
                        (self.m.committed, self.m.seq, self.m.history) = pre.clone();
                    }
                }
                let r = x.commit_transaction().map_err(|e| e.to_string());
                drop(x);
                self.note(format!("{n}: s{s}: commit{}: {r:?}", if t.dead { " (aborted by vacuum)" } else { "" }));
                self.out.see(format!("{}", r.is_ok()).as_bytes());
                match r {
                    Ok(()) if t.dead => self.bad("dead-commit", format!("s{s}: a transaction that VACUUM had aborted committed")),
                    Ok(()) => {
                        self.out.probe("commit");
                        self.merge(t.begin, &t.w, &t.work)
                    }
                    Err(_) if t.dead => true,
                    Err(m) if self.excused(&m) => {
                        self.out.probe("the disk failed at a commit");
                        true
                    }
                    Err(m) => {
                        let conflict = self.concurrent(*s, t.begin, |w| {
                            t.w.changed.iter().any(|x| w.changed.contains(x))
                                || t.w.claims.iter().any(|x| w.claims.contains(x))
                                || ((w.schema || t.w.schema) && t.w.named.iter().any(|x| w.named.contains(x)))
                        });
                        if matches!(kind_of(&m), "conflict" | "unique") && conflict {
                            self.out.probe("commit refused");
                            return true;
                        }
                        self.bad("spurious-error", format!("s{s}: commit failed with {m:?}"))
                    }
                }
            }
            Op::Rollback(s) => {
                let Some((mut x, t)) = self.ses.remove(s) else { return true };
                if t.updates > 0 && !t.dead && !self.strict {
                    // A test pins that an explicit rollback of a session keeps its updates: see the known findings.
                    self.note(format!("{n}: s{s}: drop"));
                    drop(x);
                    self.out.probe("rollback by drop");
                    return true;
                }
                let r = x.abort_transaction().map_err(|e| e.to_string());
                self.note(format!("{n}: s{s}: rollback: {r:?}"));
                drop(x);
                self.out.probe("rollback");
                match r {
                    Err(m) if !t.dead => self.bad("spurious-error", format!("s{s}: rollback failed with {m:?}")),
                    _ => true,
                }
            }
            Op::DropS(s) => {
                if let Some((x, _)) = self.ses.remove(s) {
                    self.note(format!("{n}: s{s}: drop"));
                    drop(x);
                    self.out.probe("rollback by drop");
                }
                true
            }
            Op::Q(0, St::Raw(sql), _) if !sql.starts_with("SELECT") => {
                // It may turn out to change something: in a session of its own that is dropped.
                let mut x = match self.db().session() {
                    Ok(x) => x,
                    Err(e) => return self.bad("spurious-error", format!("a session cannot be opened: {e}")),
                };
                let r = sexec(&mut x, sql);
                self.note(format!("{n}: own session: {sql}: {}", show(&r)));
                self.raw(sql, &r)
            }
            Op::Q(s, St::Raw(sql), _) if *s != 0 => {
                let Some((mut x, t)) = self.ses.remove(s) else { return true };
                let r = sexec(&mut x, sql);
                self.note(format!("{n}: s{s}: {sql}: {}", show(&r)));
                let ok = self.raw(sql, &r);
                if matches!(r, Ok(Res::Count(_) | Res::Ddl(_))) {
                    drop(x);
                } else {
                    self.ses.insert(*s, (x, t));
                }
                ok
            }
            Op::Q(0, st, var) => {
                if self.skip(0, st) {
                    return true;
                }
                let sql = st.sql(style(*var));
                let begin = self.m.seq;
                let work = self.m.committed.clone();
                let mut ids = Ids { row: self.m.ids.row, table: self.m.ids.table };
                let would = work.run(st, &mut ids);
                self.maybe(would.1);
                let r = self.db().exec(&sql);
                self.note(format!("{n}: {sql}: {}", show(&r)));
                self.answer(&r);
                self.probe_plan(st, &r);
                match self.judge(0, begin, &work, st, &sql, &r) {
                    Err(b) => b,
                    Ok(None) => true,
                    Ok(Some((next, eff))) => {
                        let mut w = Writes::default();
                        w.add(eff, st, &work, &next);
                        self.merge(begin, &w, &next)
                    }
                }
            }
            Op::Q(s, st, var) => {
                if !self.ses.contains_key(s) || self.skip(*s, st) {
                    return true;
                }
                let sql = st.sql(style(*var));
                let (mut x, mut t) = self.ses.remove(s).unwrap();
                let r = sexec(&mut x, &sql);
                self.note(format!("{n}: s{s}: {sql}: {}", show(&r)));
                self.answer(&r);
                if t.dead {
                    let bad = r.is_ok();
                    self.ses.insert(*s, (x, t));
                    if bad && !matches!(st, St::Raw(_)) {
                        return self.bad("dead-statement", format!("s{s}: {sql}: answered in a transaction that VACUUM had aborted"));
                    }
                    return true;
                }
                self.probe_plan(st, &r);
                let work = t.work.clone();
                let j = self.judge(*s, t.begin, &work, st, &sql, &r);
                let ok = match j {
                    Err(b) => b,
                    Ok(None) => true,
                    Ok(Some((next, eff))) => {
                        t.updates += eff.updates;
                        t.w.add(eff, st, &work, &next);
                        t.work = next;
                        t.reads += 1;
                        true
                    }
                };
                self.ses.insert(*s, (x, t));
                ok
            }
            Op::Batch(list) => {
                if list.is_empty() || list.iter().any(|st| self.skip(0, st) || matches!(st, St::Raw(_))) {
                    return true;
                }
                let sqls: Vec<String> = list.iter().map(|s| s.sql(Style::default())).collect();
                let refs: Vec<&str> = sqls.iter().map(|s| s.as_str()).collect();
                let begin = self.m.seq;
                {
                    let mut st = self.m.committed.clone();
                    let mut ids = Ids { row: self.m.ids.row, table: self.m.ids.table };
                    for s in list {
                        if !st.typed(s) {
                            return true;
                        }
                        st = st.run(s, &mut ids).1;
                    }
                    self.maybe(st);
                }
                let r = self.db().batch(&refs);
                self.note(format!("{n}: batch {}: {}", sqls.join(" ;; "), r.as_ref().map(|v| v.iter().map(|r| r.show()).collect::<Vec<_>>().join(" ;; ")).unwrap_or_else(|e| e.clone())));
                let mut work = self.m.committed.clone();
                let mut w = Writes::default();
                match &r {
                    Ok(v) => {
                        if v.len() != list.len() {
                            return self.bad("wrong-count", format!("a batch of {} statements gave {} answers", list.len(), v.len()));
                        }
                        for ((st, sql), res) in list.iter().zip(&sqls).zip(v) {
                            self.answer(&Ok(res.clone()));
                            match self.judge(0, begin, &work, st, sql, &Ok(res.clone())) {
                                Err(b) => return b,
                                Ok(None) => return true,
                                Ok(Some((next, eff))) => {
                                    w.add(eff, st, &work, &next);
                                    work = next;
                                }
                            }
                        }
                        self.out.probe("batch");
                        self.merge(begin, &w, &work)
                    }
                    Err(m) => {
                        // Some statement of it has to be one that fails or may fail.
                        if self.excused(m) {
                            return true;
                        }
                        if kind_of(m) == "internal" {
                            return self.bad("internal-error", format!("batch {}: {m}", sqls.join(" ;; ")));
                        }
                        self.out.probe("failed batch");
                        for st in list {
                            let (e, next, eff) = work.run(st, &mut self.m.ids);
                            if matches!(e, Expect::Fail(_) | Expect::Any) || self.may_conflict(0, begin, &eff, st) {
                                return true;
                            }
                            w.add(eff, st, &work, &next);
                            work = next;
                        }
                        self.bad("spurious-error", format!("batch {}: failed with {m}", sqls.join(" ;; ")))
                    }
                }
            }
            Op::Flush => {
                let r = self.db().flush();
                self.note(format!("{n}: flush: {r:?}"));
                match r {
                    Ok(()) => true,
                    Err(e) if self.excused(&e) => true,
                    Err(e) => self.bad("spurious-error", format!("flush failed with {e}")),
                }
            }
            Op::Vacuum | Op::Space => {
                let r = self.db().vacuum();
                self.note(format!("{n}: vacuum: {r:?}"));
                for (_, t) in self.ses.values_mut() {
                    t.dead = true;
                }
                self.out.probe("vacuum");
                match r {
                    Ok(_) => !matches!(op, Op::Space) || self.space(n),
                    Err(e) if self.excused(&e) => true,
                    Err(e) => self.bad("spurious-error", format!("VACUUM failed with {e}")),
                }
            }
            Op::Analyze => {
                let r = self.db().analyze();
                self.note(format!("{n}: analyze: {r:?}"));
                self.out.probe("analyze");
                match r {
                    Ok(()) => {
                        self.m.seq += 1;
                        self.m.analyzed = self.m.seq;
                        true
                    }
                    Err(e) if kind_of(&e) == "conflict" && self.ses.values().any(|(_, t)| !t.dead && t.w.schema) => true,
                    Err(e) if self.excused(&e) => true,
                    Err(e) => self.bad("spurious-error", format!("ANALYZE failed with {e}")),
                }
            }
            Op::Reopen(k) => {
                self.ses.clear();
                self.db = None;
                self.note(format!("{n}: close, open with {k:?}"));
                match Db::open(&self.path, *k) {
                    Ok(d) => {
                        self.db = Some(d);
                        self.m.history.clear();
                        self.out.probe("reopen");
                        self.check(n)
                    }
                    Err(e) => self.bad("open-failed", format!("the database does not open again: {e}")),
                }
            }
            Op::Check => self.check(n),
        }
    }

    fn raw(&mut self, sql: &str, r: &R<Res>) -> bool {
        self.out.checks += 1;
        self.answer(r);
        match r {
            Ok(_) => self.out.probe("raw text answered"),
            Err(e) if self.excused(e) => return true,
            Err(e) if kind_of(e) == "internal" => return self.bad("internal-error", format!("{sql}: {e}")),
            Err(_) => self.out.probe("raw text rejected"),
        }
        true
    }

    fn probe_plan(&mut self, st: &St, r: &R<Res>) {
        if r.is_ok() && st.is_query() {
            self.out.probe("query");
        }
        if r.is_ok() && (st.dml().is_some() || st.ddl().is_some()) {
            self.out.nontrivial = true;
        }
    }

    /// After VACUUM, which leaves no transaction in progress, nothing but the last versions is needed: what
    /// is stored is in proportion to them, however much work there has been.
    fn space(&mut self, n: usize) -> bool {
        let cat = match facade::catalog(&self.db().db, 100_000) {
            Ok(c) => c,
            Err(e) => return self.bad("catalog", format!("space {n}: the catalog cannot be read: {e}")),
        };
        let store = facade::Store::of(&self.db().db);
        let page = store.info().page_size as u64;
        let len = |r: &Vec<V>| -> u64 { r.iter().map(|v| if let V::S(s) = v { s.len() as u64 + 8 } else { 8 }).sum::<u64>() + 64 };
        let rows = self.m.committed.tables.values().map(|t| t.rows.len()).max().unwrap_or(0) as u64;
        let bytes: u64 = self.m.committed.tables.values().map(|t| t.rows.values().map(len).sum::<u64>()).sum();
        self.most.0 = self.most.0.max(rows);
        self.most.1 = self.most.1.max(bytes);
        let mut todo = vec![("the meta table".to_string(), &cat.meta_table, cat.relations.len() as u64, true)];
        todo.push(("the meta index".to_string(), &cat.meta_index, cat.relations.len() as u64, true));
        for r in &cat.relations {
            todo.push((format!("{} {}", if r.is_table { "table" } else { "index" }, r.name), &r.tree, rows, false));
        }
        let live = cat.relations.iter().filter(|r| r.xmax.is_none()).count() as u64;
        for (what, t, rows, meta) in todo {
            let rep = audit::tree(&store, t, &what);
            if !rep.problems.is_empty() {
                return self.bad(&rep.problems[0].0.clone(), format!("space {n}: {}", rep.problems[0].1));
            }
            let rows = if meta { live } else { rows };
            let cells = rep.keys.len() as u64;
            self.out.checks += 1;
            self.out.probe("space check");
            if cells > 2 * rows + 16 {
                return self.bad("space", format!("space {n}: after VACUUM {what} holds {cells} entries, there are {rows} rows"));
            }
            if meta {
                continue;
            }
            let mut pages = rep.nodes.len() as u64;
            for (head, ..) in &rep.chains {
                let mut cur = Some(*head);
                while let Some(p) = cur {
                    pages += 1;
                    cur = store.link(p).ok().and_then(|l| l.next);
                }
            }
            let most = 8 + 8 * self.most.1 / page + if bytes > rows * page / 16 { 3 * self.most.0 } else { self.most.0 };
            if pages > most {
                return self.bad("space", format!("space {n}: after VACUUM {what} has {pages} pages for {rows} rows of {bytes} bytes"));
            }
        }
        true
    }

    /// The committed state, read by statements of their own.
    pub fn check(&mut self, n: usize) -> bool {
        let tables: Vec<(String, Arc<Table>)> = self.m.committed.tables.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        for (name, t) in &tables {
            let cols: Vec<&str> = std::iter::once("row_id").chain(t.cols.iter().map(|c| c.name.as_str())).collect();
            let sql = format!("SELECT {} FROM {name}", cols.join(", "));
            let r = self.db().exec(&sql);
            self.out.checks += 1;
            match r {
                Err(e) if self.excused(&e) => return true,
                Err(e) => return self.bad("wrong-rows", format!("check {n}: {sql}: {e}")),
                Ok(Res::Rows { rows, .. }) => {
                    let mut rows = rows;
                    let id = |r: &Vec<V>| match r.first() {
                        Some(V::U(u)) => *u,
                        Some(V::I(i)) => *i as u64,
                        _ => u64::MAX,
                    };
                    rows.sort_by_key(id);
                    if rows.windows(2).any(|w| id(&w[0]) == id(&w[1])) {
                        return self.bad("row-id", format!("check {n}: two rows of {name} have one row id"));
                    }
                    let got: Vec<String> = rows.iter().map(|r| show_row(&r[1..])).collect();
                    let want: Vec<String> = t.rows.values().map(|r| show_row(r)).collect();
                    if got != want {
                        let (mut g, mut w) = (got.clone(), want.clone());
                        g.sort();
                        w.sort();
                        if g != w {
                            return self.bad("wrong-contents", format!("check {n}: {name}: {}", diff(&w, &g)));
                        }
                    }
                    self.out.state(hash_str(&format!("{}:{}", want.len().min(40), t.uniq.len())));
                }
                Ok(r) => return self.bad("wrong-rows", format!("check {n}: {sql}: {}", r.show())),
            }
        }
        if self.ses.values().any(|(_, t)| !t.dead) {
            return true;
        }
        self.audit(n)
    }

    /// The stored state, with no transaction open.
    pub fn audit(&mut self, n: usize) -> bool {
        if self.contents_only {
            return true;
        }
        self.ses.clear();
        // A commit with nothing else open frees what has been dropped.
        let _ = self.db().exec("SELECT 1");
        self.structure(n, true)
    }

    fn structure(&mut self, n: usize, idle: bool) -> bool {
        let cat = match facade::catalog(&self.db().db, 100_000) {
            Ok(c) => c,
            Err(e) if self.excused(&e) => return true,
            Err(e) => return self.bad("catalog", format!("audit {n}: the catalog cannot be read: {e}")),
        };
        let store = facade::Store::of(&self.db().db);
        let mut trees = Vec::new();
        let mut todo = vec![("the meta table".to_string(), &cat.meta_table), ("the meta index".to_string(), &cat.meta_index)];
        for r in &cat.relations {
            todo.push((format!("{} {}", if r.is_table { "table" } else { "index" }, r.name), &r.tree));
        }
        let mut problems = Vec::new();
        for (what, t) in todo {
            let rep = audit::tree(&store, t, &what);
            problems.extend(rep.problems.iter().cloned());
            trees.push((what, rep));
        }
        if let Some((c, m)) = problems.first() {
            if self.excused(&m) {
                return true;
            }
            return self.bad(c, format!("audit {n}: {m}"));
        }
        if !idle {
            return true;
        }
        let (own, free, chains) = audit::ownership(&store, &trees, &BTreeSet::new());
        if let Some((c, m)) = own.first() {
            if self.excused(&m) {
                return true;
            }
            return self.bad(c, format!("audit {n}: {m}"));
        }
        self.out.probe_n("free pages", free);
        self.out.probe_n("overflow pages", chains);
        self.out.checks += trees.len() as u64;
        // The catalog has the tables of the model and nothing else.
        let live: Vec<_> = cat.relations.iter().filter(|r| r.xmax.is_none()).collect();
        let names: BTreeSet<String> = live.iter().filter(|r| r.is_table).map(|r| r.name.clone()).collect();
        let want: BTreeSet<String> = self.m.committed.tables.keys().cloned().collect();
        if names != want {
            return self.bad("catalog", format!("audit {n}: the catalog has tables {names:?}, there should be {want:?}"));
        }
        let ids: BTreeSet<u64> = live.iter().map(|r| r.id).collect();
        if ids.len() != live.len() {
            return self.bad("catalog", format!("audit {n}: two relations have one object id"));
        }
        let idx: BTreeMap<String, u64> = cat.names.iter().filter(|x| x.3.is_none()).map(|x| (x.0.clone(), x.1)).collect();
        for r in &live {
            if idx.get(&r.name) != Some(&r.id) {
                return self.bad("catalog", format!("audit {n}: the name index has {:?} for {}, which is object {}", idx.get(&r.name), r.name, r.id));
            }
        }
        if idx.len() != live.len() {
            return self.bad("catalog", format!("audit {n}: the name index has {} entries for {} relations", idx.len(), live.len()));
        }
        let last = store.info().last_object;
        if live.iter().any(|r| r.id > last) {
            return self.bad("catalog", format!("audit {n}: an object id is greater than the last one recorded ({last})"));
        }
        let mut used = BTreeSet::new();
        for r in live.iter().filter(|r| r.is_table) {
            let t = self.m.committed.tables[&r.name].clone();
            let (got, want) = (columns_of(r), columns_wanted(&t));
            if got != want {
                return self.bad("schema", format!("audit {n}: table {} is stored with columns {got:?}, it should have {want:?}", r.name));
            }
            let rows = match facade::raw_rows(&r.tree, 1_000_000) {
                Ok(x) => x,
                Err(e) if self.excused(&e) => return true,
                Err(e) => return self.bad("wrong-contents", format!("audit {n}: {}: {e}", r.name)),
            };
            // Row ids are below the next one.
            if let Some(next) = r.next_row_id {
                for (row, ..) in &rows {
                    if let DataType::BigUInt(id) = &row[0]
                        && id.value() >= next
                    {
                        return self.bad("row-id", format!("audit {n}: {} has a row {} and would give out {next} next", r.name, id.value()));
                    }
                }
            }
            // Each index has exactly the live rows.
            let sets = index_columns(r);
            let want: BTreeSet<Vec<String>> = t.uniq.iter().map(|u| u.cols.clone()).collect();
            if sets != want {
                return self.bad("schema", format!("audit {n}: {} has indexes on {sets:?}, it should have {want:?}", r.name));
            }
            for (id, cols) in &r.indexes {
                used.insert(*id);
                let Some(ix) = live.iter().find(|x| x.id == *id) else {
                    return self.bad("catalog", format!("audit {n}: {} refers to an index {id} that does not exist", r.name));
                };
                let mut want: Vec<String> = rows
                    .iter()
                    .filter(|x| x.2.is_none())
                    .filter(|x| cols.iter().all(|c| !matches!(x.0[*c], DataType::Null)))
                    .map(|x| {
                        let mut k: Vec<V> = cols.iter().map(|c| V::from(&x.0[*c])).collect();
                        k.push(V::from(&x.0[0]));
                        show_row(&k)
                    })
                    .collect();
                let have = match facade::raw_rows(&ix.tree, 1_000_000) {
                    Ok(x) => x,
                    Err(e) if self.excused(&e) => return true,
                    Err(e) => return self.bad("index", format!("audit {n}: {}: {e}", ix.name)),
                };
                let mut got: Vec<String> =
                    have.iter().filter(|x| x.2.is_none()).map(|x| show_row(&x.0.iter().map(V::from).collect::<Vec<_>>())).collect();
                want.sort();
                got.sort();
                if want != got {
                    return self.bad("index", format!("audit {n}: index {} of {} on columns {cols:?} disagrees with the rows: {}", ix.name, r.name, diff(&want, &got)));
                }
                self.out.checks += 1;
            }
        }
        if let Some(r) = live.iter().find(|r| !r.is_table && !used.contains(&r.id)) {
            return self.bad("catalog", format!("audit {n}: index {} belongs to no table", r.name));
        }
        self.out.probe("audit");
        true
    }

    pub fn finish(&mut self) -> bool {
        self.ses.clear();
        self.sim.fs(|f| f.disarm());
        if !self.check(usize::MAX) || !self.panics() {
            return false;
        }
        let i = facade::Store::of(&self.db().db).info();
        self.out.probe_n("pages", i.total_pages);
        self.out.see(format!("{:?}", i.total_pages).as_bytes());
        self.db = None;
        let _ = self.knobs;
        self.panics()
    }
}

/// The columns of a table as they are stored.
pub fn columns_of(r: &facade::RelationInfo) -> Vec<String> {
    r.columns.iter().zip(&r.defaults).skip(1).map(|((n, t, nn), d)| format!("{n} {t} {nn} {}", V::from(d).show())).collect()
}

pub fn columns_wanted(t: &Table) -> Vec<String> {
    let default = |c: &Col| c.default.as_ref().and_then(|d| d.fit(c.t)).unwrap_or(V::Null).show();
    t.cols.iter().map(|c| format!("{} {} {} {}", c.name, kind_name(c.t), c.nn, default(c))).collect()
}

/// The columns of each index of a table, without repetitions.
pub fn index_columns(r: &facade::RelationInfo) -> BTreeSet<Vec<String>> {
    r.indexes.iter().map(|(_, c)| c.iter().map(|i| r.columns.get(*i).map(|c| c.0.clone()).unwrap_or_default()).collect()).collect()
}

pub fn kind_name(t: T) -> &'static str {
    match t {
        T::Int => "Int",
        T::Big => "BigInt",
        T::Text => "Blob",
        T::Bool => "Bool",
        T::Dbl => "Double",
    }
}

fn show(r: &R<Res>) -> String {
    match r {
        Ok(r) => r.show(),
        Err(e) => format!("ERR {e}"),
    }
}

pub fn generate(prop: &str, rng: &mut crate::rng::Rng, i: u64, thorough: bool) -> Value {
    sqlgen::generate(prop, rng, i, thorough)
}
