//! C18: one stored row under a seeded schedule of transactions, against a list of versions.
//!
//! A history is a sequence of events over simulated transactions: begin, update, delete, commit, abort, a reader's
//! snapshot, a trim with a horizon, a trip through the byte form. Every snapshot taken is decoded again after every
//! later event it is still entitled to.
use super::{guard, vals::*};
use crate::{
    orch::{Outcome, fnv},
    rng::Rng,
    sim::Sim,
};
use axmosdb::{DataType, verif::facade::{RowSchema, Snap, StoredRow}};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Begin,
    /// The writer: 0 = oldest open transaction, 1 = next, ...
    Update { who: usize, set: Vec<(usize, W)> },
    Delete { who: usize },
    Commit { who: usize },
    Abort { who: usize },
    /// A snapshot of a new transaction that stays open as a reader.
    Snapshot,
    CloseReader { who: usize },
    /// Trim with the largest horizon allowed, or lower.
    Trim { back: u64 },
    Bytes,
    /// Any snapshot at all, also of states the engine has passed (random active and aborted sets).
    Probe { xid: u64, active: u64, cut: u64 },
}

pub fn generate(rng: &mut Rng, i: u64, thorough: bool) -> Value {
    let nk = 1 + rng.usize(3);
    // More columns than one byte counts, sometimes.
    let wide = i % 50 == 7;
    let nv = match i % 5 {
        _ if wide => 250 + rng.usize(60),
        0 => rng.usize(3),
        1 => 12,
        2 => 8 + rng.usize(2),
        _ => 1 + rng.usize(12),
    };
    let kinds: Vec<K> = (0..nk + nv)
        .map(|c| if c < nk && rng.chance(500) { K::BigUInt } else { *rng.pick(&KINDS) })
        .collect();
    let max_text = if wide { 20 } else { *rng.pick(&[30usize, 300, 5000]) };
    let row: Vec<W> = (0..nk + nv)
        .map(|c| if c >= nk && rng.chance(250) { W::N } else { value(rng, kinds[c], max_text) })
        .collect();
    let n = 6 + rng.usize(if wide { 20 } else if thorough { 60 } else { 30 });
    let mut ops = Vec::new();
    let aborts = *rng.pick(&[0u32, 0, 3, 6]);
    let dels = *rng.pick(&[0u32, 1, 3]);
    let long = !wide && rng.chance(30);
    if long {
        // A long chain: version numbers beyond one byte.
        ops.push(Op::Begin);
        for _ in 0..(250 + rng.usize(60)) {
            if nv > 0 {
                let c = rng.usize(nv);
                ops.push(Op::Update { who: 0, set: vec![(c, value(rng, kinds[nk + c], 20))] });
            }
        }
        ops.push(Op::Snapshot);
        ops.push(Op::Commit { who: 0 });
    }
    for _ in 0..n {
        ops.push(match rng.weighted(&[20, if nv > 0 { 30 } else { 0 }, dels, 16, aborts, 20, 4, 5, 4, 8]) {
            0 => Op::Begin,
            1 => {
                let mut set = BTreeMap::new();
                let m = if rng.chance(150) { nv } else { 1 + rng.usize(nv.min(4)) };
                for _ in 0..m {
                    let c = rng.usize(nv);
                    set.insert(c, if rng.chance(250) { W::N } else { value(rng, kinds[nk + c], max_text) });
                }
                Op::Update { who: rng.usize(3), set: set.into_iter().collect() }
            }
            2 => Op::Delete { who: rng.usize(3) },
            3 => Op::Commit { who: rng.usize(3) },
            4 => Op::Abort { who: rng.usize(3) },
            5 => Op::Snapshot,
            6 => Op::CloseReader { who: rng.usize(3) },
            7 => Op::Trim { back: if rng.chance(700) { 0 } else { rng.below(5) } },
            8 => Op::Bytes,
            _ => Op::Probe { xid: rng.next(), active: rng.next(), cut: rng.next() },
        });
    }
    json!({
        "sched": {"seed": rng.next() >> 1, "preempt": 0, "script": null, "max_steps": 10_000_000u64},
        "kinds": kinds, "keys": nk, "row": row, "ops": ops,
    })
}

struct Version {
    by: u64,
    values: Vec<W>,
}

/// What a snapshot knows.
#[derive(Clone, Debug)]
struct View {
    xid: u64,
    /// Highest transaction number handed out when the snapshot was taken.
    last: u64,
    active: BTreeSet<u64>,
    aborted: BTreeSet<u64>,
}

impl View {
    fn sees(&self, t: u64) -> bool {
        t == self.xid || (t <= self.last && !self.active.contains(&t) && !self.aborted.contains(&t))
    }
    /// Updates of a transaction that had been rolled back stay visible: the pinned behaviour of the engine
    /// (test_session_rollback_updates), recorded in known_findings.txt.
    fn sees_update(&self, t: u64) -> bool {
        self.sees(t) || self.aborted.contains(&t)
    }
    fn xmin(&self) -> u64 {
        self.active.iter().next().copied().unwrap_or(self.xid).min(self.xid)
    }
    fn snap(&self) -> Snap {
        Snap {
            xid: self.xid,
            xmin: self.xmin(),
            xmax: Some(self.last),
            active: self.active.iter().copied().collect(),
            aborted: self.aborted.iter().copied().collect(),
        }
    }
}

struct Model {
    versions: Vec<Version>,
    deleted: Option<u64>,
}

impl Model {
    /// The version a view is entitled to; `ideal` = rolled-back updates are no versions at all.
    fn at(&self, v: &View, ideal: bool) -> Option<&Version> {
        if !v.sees(self.versions[0].by) {
            return None;
        }
        if self.deleted.is_some_and(|d| v.sees(d)) {
            return None;
        }
        self.versions.iter().enumerate().rev().find(|(i, x)| *i == 0 || if ideal { v.sees(x.by) } else { v.sees_update(x.by) }).map(|(_, x)| x)
    }
}

pub fn run(sim: &'static Sim, plan: &Value, out: &mut Outcome) {
    let kinds: Vec<K> = serde_json::from_value(plan["kinds"].clone()).unwrap();
    let nk = plan["keys"].as_u64().unwrap() as usize;
    let row: Vec<W> = serde_json::from_value(plan["row"].clone()).unwrap();
    let ops: Vec<Op> = serde_json::from_value(plan["ops"].clone()).unwrap();
    // Only the fixed reproducer of the recorded finding asks for the ideal answer.
    let strict = plan["strict"].as_bool().unwrap_or(false);
    let nv = kinds.len() - nk;
    let cols: Vec<_> = kinds.iter().enumerate().map(|(i, k)| (k.kind(), format!("c{i}"))).collect();
    let schema = RowSchema::new(&cols, nk);
    let data: Vec<DataType> = row.iter().map(|w| w.data()).collect();

    // Transaction 1 inserts the row.
    let mut last = 1u64;
    let mut open: Vec<u64> = vec![1];
    let mut aborted: BTreeSet<u64> = BTreeSet::new();
    let mut committed: BTreeSet<u64> = BTreeSet::new();
    let mut readers: Vec<View> = Vec::new();
    let mut views: BTreeMap<u64, View> = BTreeMap::new();
    views.insert(1, View { xid: 1, last: 0, active: BTreeSet::new(), aborted: BTreeSet::new() });
    let mut m = Model { versions: vec![Version { by: 1, values: row.clone() }], deleted: None };
    let mut horizon = 0u64;
    let mut t = match guard(sim, || StoredRow::build(&schema, &data, 1)) {
        Ok(Ok(t)) => t,
        e => {
            out.fail("tuple-encode", format!("building the row: {:?}", e.map(|r| r.map(|_| ()))));
            return;
        }
    };
    let mut updates = 0;

    let check = |t: &StoredRow, m: &Model, v: &View, what: &str, out: &mut Outcome| {
        out.checks += 1;
        let got = match guard(sim, || t.decode(&schema, &v.snap())) {
            Ok(Ok(g)) => g,
            Ok(Err(e)) => return out.fail("tuple-decode-error", format!("{what}: {e}")),
            Err(p) => return out.fail("tuple-panic", format!("{what}: {p}")),
        };
        let same = |want: Option<&Version>| match (&got, want) {
            (None, None) => true,
            (Some(g), Some(w)) => g.len() == w.values.len() && g.iter().zip(&w.values).all(|(d, x)| x.same(d)),
            _ => false,
        };
        if let Some(g) = &got {
            out.digest = fnv(out.digest, brief_row(g).as_bytes());
        } else {
            out.digest = fnv(out.digest, b"none");
        }
        if same(m.at(v, true)) {
            return;
        }
        if !strict && same(m.at(v, false)) {
            out.probe("rolled-back update still decoded (recorded finding)");
            return;
        }
        let show = |x: Option<&Version>| match x {
            None => "nothing".to_string(),
            Some(x) => format!("the version of {} ({})", x.by, x.values.iter().map(|w| w.brief()).collect::<Vec<_>>().join(", ")),
        };
        let class = if strict { "tuple-aborted-update" } else { "tuple-version" };
        out.fail(
            class,
            format!(
                "{what}: snapshot {v:?} decodes {}, it is entitled to {}; writers in order {:?}, deleted by {:?}",
                got.as_ref().map(|g| brief_row(g)).unwrap_or("nothing".into()),
                show(m.at(v, true)),
                m.versions.iter().map(|x| x.by).collect::<Vec<_>>(),
                m.deleted
            ),
        );
    };

    for (k, op) in ops.iter().enumerate() {
        if !out.violations.is_empty() {
            break;
        }
        let what = format!("after op {k} {}", format!("{op:?}").chars().take(160).collect::<String>());
        let mut others: Vec<View> = Vec::new();
        match op {
            Op::Begin => {
                last += 1;
                views.insert(last, View { xid: last, last: last - 1, active: open.iter().copied().chain(readers.iter().map(|r| r.xid)).collect(), aborted: aborted.clone() });
                open.push(last);
            }
            Op::Snapshot => {
                last += 1;
                let v = View { xid: last, last: last - 1, active: open.iter().copied().chain(readers.iter().map(|r| r.xid)).collect(), aborted: aborted.clone() };
                readers.push(v);
            }
            Op::CloseReader { who } => {
                if !readers.is_empty() {
                    let n = readers.len();
                    readers.remove(who % n);
                }
            }
            Op::Update { who, .. } | Op::Delete { who } => {
                if open.is_empty() {
                    continue;
                }
                let x = open[who % open.len()];
                let v = views[&x].clone();
                // First committer wins: the writer must see the latest version, and the row must not be deleted.
                let lastw = m.versions.last().unwrap().by;
                let ok = (v.sees(lastw) || (m.versions.len() > 1 && v.sees_update(lastw)))
                    && v.sees(m.versions[0].by)
                    && m.deleted.is_none_or(|d| aborted.contains(&d) && v.aborted.contains(&d));
                if !ok {
                    continue;
                }
                match op {
                    Op::Update { set, .. } => {
                        let set: Vec<(usize, W)> = set.iter().filter(|(c, _)| *c < nv).cloned().collect();
                        if set.is_empty() {
                            continue;
                        }
                        let d: Vec<(usize, DataType)> = set.iter().map(|(c, w)| (*c, w.data())).collect();
                        match guard(sim, || t.update(&schema, &d, x)) {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) => out.fail("tuple-update-error", format!("{what}: {e}")),
                            Err(p) => out.fail("tuple-panic", format!("{what}: {p}")),
                        }
                        let mut vals = m.versions.last().unwrap().values.clone();
                        for (c, w) in set {
                            vals[nk + c] = w;
                        }
                        m.versions.push(Version { by: x, values: vals });
                        m.deleted = None;
                        updates += 1;
                    }
                    _ => {
                        match guard(sim, || t.delete(x)) {
                            Ok(Ok(())) => {}
                            e => out.fail("tuple-panic", format!("{what}: {e:?}")),
                        }
                        m.deleted = Some(x);
                        out.probe("deletes");
                    }
                }
                others.push(v);
            }
            Op::Commit { who } => {
                if open.is_empty() {
                    continue;
                }
                let n = open.len();
                let x = open.remove(who % n);
                committed.insert(x);
            }
            Op::Abort { who } => {
                if open.is_empty() {
                    continue;
                }
                let n = open.len();
                let x = open.remove(who % n);
                aborted.insert(x);
                out.probe("aborts");
            }
            Op::Trim { back } => {
                // No open transaction, and no snapshot still in use, may predate the horizon.
                let lim = open
                    .iter()
                    .map(|x| views[x].xmin())
                    .chain(readers.iter().map(|r| r.xmin()))
                    .min()
                    .unwrap_or(last + 1);
                let h = lim.saturating_sub(*back).max(1);
                match guard(sim, || t.trim(&schema, h)) {
                    Ok(Ok(n)) => {
                        if n > 0 {
                            out.probe("trims that removed history");
                        }
                    }
                    Ok(Err(e)) => out.fail("tuple-trim-error", format!("{what}: {e}")),
                    Err(p) => out.fail("tuple-panic", format!("{what}: {p}")),
                }
                horizon = horizon.max(h);
            }
            Op::Bytes => {
                let b = t.bytes();
                match guard(sim, || StoredRow::from_bytes(&b)) {
                    Ok(Ok(n)) => {
                        out.checks += 1;
                        if n.bytes() != b {
                            out.fail("tuple-bytes", format!("{what}: the byte form changed on reading it back"));
                        }
                        t = n;
                    }
                    e => out.fail("tuple-decode-error", format!("{what}: {:?}", e.map(|r| r.map(|_| ())))),
                }
            }
            Op::Probe { xid, active, cut } => {
                // A snapshot some reader could have taken at a moment of this history.
                let c = cut % (last + 1);
                let mut a = BTreeSet::new();
                let mut ab = BTreeSet::new();
                for tx in 1..=c {
                    // Finished writers may still have been running for this reader; open ones certainly were.
                    if open.contains(&tx) || (active >> (tx % 61)) & 1 == 1 {
                        a.insert(tx);
                    } else if aborted.contains(&tx) {
                        ab.insert(tx);
                    }
                }
                // Running means running together with everything that was written on top: keep the order of writers.
                let first_hidden = m.versions.iter().map(|x| x.by).find(|b| a.contains(b) || *b > c);
                if let Some(f) = first_hidden {
                    let pos = m.versions.iter().position(|x| x.by == f).unwrap();
                    for x in &m.versions[pos..] {
                        if x.by <= c {
                            ab.remove(&x.by);
                            a.insert(x.by);
                        }
                    }
                    if let Some(d) = m.deleted.filter(|d| *d <= c) {
                        ab.remove(&d);
                        a.insert(d);
                    }
                }
                let me = last + 1 + xid % 7;
                let v = View { xid: me, last: c, active: a, aborted: ab };
                if v.xmin() >= horizon && v.last + 1 >= horizon {
                    out.probe("snapshots of other moments");
                    others.push(v);
                }
            }
        }
        for v in readers.iter().chain(others.iter()) {
            if v.xmin() >= horizon || horizon == 0 {
                check(&t, &m, v, &what, out);
            }
        }
        for x in &open {
            let v = &views[x];
            check(&t, &m, v, &what, out);
        }
        // A transaction that starts now.
        let v = View { xid: last + 1, last, active: open.iter().copied().chain(readers.iter().map(|r| r.xid)).collect(), aborted: aborted.clone() };
        check(&t, &m, &v, &what, out);
        let mut st = fnv(m.versions.len() as u64, &[open.len() as u8, readers.len() as u8, m.deleted.is_some() as u8]);
        for w in &m.versions.last().unwrap().values {
            st = fnv(st, &[matches!(w, W::N) as u8]);
        }
        out.state(st);
    }
    out.probe_n("versions", updates);
    out.nontrivial = updates > 0 || m.deleted.is_some() || nv == 0;
    out.sample = format!(
        "{nk} keys, {nv} values {kinds:?}; writers {:?}, deleted by {:?}, {} open, {} readers, horizon {horizon}",
        m.versions.iter().map(|x| x.by).take(20).collect::<Vec<_>>(),
        m.deleted,
        open.len(),
        readers.len()
    );
}
