//! C17: the write-ahead log against a list of records, with log forces, reopens, truncations, I/O faults and
//! process death at arbitrary points of the write sequence.
use super::guard;
use crate::{
    orch::{Outcome, fnv},
    rng::Rng,
    sim::{FsOp, IoFault, SECTOR, Sim, apply, relative},
};
use axmosdb::verif::facade::{WAL_KINDS, Wal, WalRec};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// A record; payload sizes, contents derived from `fill`.
    Push { tid: u64, prev: bool, ids: bool, kind: u8, undo: usize, redo: usize, fill: u64 },
    /// A record sized so that `left` bytes of the current block remain (0: fills it exactly).
    Fit { tid: u64, kind: u8, left: usize, fill: u64 },
    Force,
    Truncate,
    Reopen,
    /// Process death right now.
    Crash,
    Read { ahead: usize },
    /// The next force meets these faults.
    FailForce { fault: IoFault },
    /// Process death after each prefix of the writes of a force.
    TornForce,
    /// Same for a truncation.
    TornTruncate,
    /// A record one byte or more above the limit.
    TooBig { over: usize },
}

fn size_class(r: &mut Rng) -> usize {
    match r.weighted(&[20, 30, 20, 12, 8, 4]) {
        0 => 0,
        1 => r.usize(64),
        2 => r.usize(600),
        3 => r.usize(5000),
        4 => r.usize(20000),
        _ => r.usize(40900),
    }
}

pub fn generate(rng: &mut Rng, i: u64, thorough: bool) -> Value {
    let n = match i % 4 {
        0 => 20 + rng.usize(40),
        1 => 60 + rng.usize(120),
        2 => 40 + rng.usize(80),
        _ => 100 + rng.usize(if thorough { 1500 } else { 500 }),
    };
    let force_w = *rng.pick(&[2u32, 8, 20, 40]);
    let trunc_w = *rng.pick(&[0u32, 0, 1, 4]);
    let reopen_w = *rng.pick(&[0u32, 1, 3, 8]);
    let crash_w = *rng.pick(&[0u32, 1, 3]);
    let fault_w = *rng.pick(&[0u32, 0, 2, 5]);
    let small = rng.chance(300);
    let mut ops = Vec::new();
    for _ in 0..n {
        let w = [60u32, 10, force_w, trunc_w, reopen_w, crash_w, 6, fault_w, 2, trunc_w.min(1), 1];
        let fill = rng.next();
        let kind = *rng.pick(&WAL_KINDS);
        let tid = rng.below(9) + if rng.chance(30) { u64::MAX - 20 } else { 0 };
        ops.push(match rng.weighted(&w) {
            0 => {
                let (undo, redo) = if small { (rng.usize(40), rng.usize(40)) } else { (size_class(rng), size_class(rng)) };
                let (undo, redo) = if undo + redo > 40800 { (undo / 2, redo / 2) } else { (undo, redo) };
                Op::Push { tid, prev: rng.chance(500), ids: rng.chance(700), kind, undo, redo, fill }
            }
            1 => Op::Fit { tid, kind, left: *rng.pick(&[0usize, 0, 1, 7, 8, 9, 63, 64, 65, 88, 96, 100, 120]), fill },
            2 => Op::Force,
            3 => Op::Truncate,
            4 => Op::Reopen,
            5 => Op::Crash,
            6 => Op::Read { ahead: 1 + rng.usize(9) },
            7 => Op::FailForce {
                fault: IoFault {
                    at: rng.below(6),
                    op: rng.pick(&["write", "write", "write", "sync"]).to_string(),
                    kind: rng.pick(&["eio", "enospc", "short", "intr"]).to_string(),
                    count: 1 + rng.below(2),
                },
            },
            8 => Op::TornForce,
            9 => Op::TornTruncate,
            _ => Op::TooBig { over: rng.usize(3) * rng.usize(2000) },
        });
    }
    json!({"sched": {"seed": rng.next() >> 1, "preempt": 0, "script": null, "max_steps": 60_000_000u64}, "ops": ops})
}

fn payload(fill: u64, n: usize) -> Vec<u8> {
    match fill % 5 {
        0 => vec![0u8; n],
        1 => vec![0xff; n],
        _ => {
            let mut r = Rng::new(fill);
            let mut v = Vec::with_capacity(n + 8);
            while v.len() < n {
                v.extend_from_slice(&r.next().to_le_bytes());
            }
            v.truncate(n);
            v
        }
    }
}

struct Model {
    /// Appended since the last truncation.
    recs: Vec<WalRec>,
    /// How many of them a successful force covers.
    forced: usize,
    /// Set when a force failed: a prefix between `forced` and this may have reached the file.
    maybe: usize,
    next_lsn: u64,
}

fn diff(got: &[WalRec], want: &[WalRec]) -> String {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            let show = |r: &WalRec| {
                format!(
                    "lsn {} tid {} prev {:?} oid {:?} row {:?} kind {} undo {}B/{:016x} redo {}B/{:016x}",
                    r.lsn, r.tid, r.prev, r.oid, r.row, r.kind, r.undo.len(), fnv(0, &r.undo), r.redo.len(), fnv(0, &r.redo)
                )
            };
            return format!("record {i}: read [{}], appended [{}]", show(g), show(w));
        }
    }
    format!("{} records read, {} expected", got.len(), want.len())
}

/// Reads a log back and compares it with a prefix of `recs` of at least `lo` and at most `hi` records.
fn compare(sim: &'static Sim, wal: &mut Wal, ahead: usize, recs: &[WalRec], lo: usize, hi: usize, what: &str, out: &mut Outcome) -> bool {
    read_back(sim, wal, ahead, recs, lo, hi, what, out).is_some()
}

/// The same; gives the number of records.
fn read_back(sim: &'static Sim, wal: &mut Wal, ahead: usize, recs: &[WalRec], lo: usize, hi: usize, what: &str, out: &mut Outcome) -> Option<usize> {
    out.checks += 1;
    let limit = recs.len() + 1000;
    let got = match guard(sim, || wal.read(ahead, limit)) {
        Err(p) => {
            out.fail("wal-read-panic", format!("{what}: {p}"));
            return None;
        }
        Ok(Err(e)) => {
            out.fail("wal-read-error", format!("{what}: {e}"));
            return None;
        }
        Ok(Ok(g)) => g,
    };
    for r in &got {
        out.see(&r.lsn.to_le_bytes());
    }
    if got.len() < lo {
        out.fail("wal-lost", format!("{what} (read ahead {ahead}): {}", diff(&got, &recs[..lo])));
        return None;
    }
    if got.len() > hi {
        out.fail("wal-invented", format!("{what} (read ahead {ahead}): {}", diff(&got, &recs[..hi])));
        return None;
    }
    if got[..] != recs[..got.len()] {
        out.fail("wal-mismatch", format!("{what} (read ahead {ahead}): {}", diff(&got, &recs[..got.len()])));
        return None;
    }
    if got.windows(2).any(|w| w[0].lsn >= w[1].lsn) {
        out.fail("wal-order", format!("{what}: sequence numbers are not increasing"));
        return None;
    }
    Some(got.len())
}

/// A log that was recovered takes records and gives them back.
fn go_on(sim: &'static Sim, mut wal: Wal, dir: &Path, recs: &[WalRec], lsn: u64, salt: usize, what: &str, out: &mut Outcome) {
    let mut recs = recs.to_vec();
    for i in 0..1 + salt as u64 % 3 {
        let big = (salt as u64 + i) % 4 == 0;
        let r = WalRec { lsn: lsn + i, tid: 900 + i, prev: None, oid: Some(1), row: Some(2), kind: 8, undo: payload(lsn, 5), redo: payload(i, if big { 30_000 } else { 40 }) };
        match guard(sim, || wal.push(&r)) {
            Ok(Ok(())) => recs.push(r),
            e => return out.fail("wal-push-error", format!("{what}, a record afterwards: {e:?}")),
        }
        if i == 0 && salt % 2 == 0 {
            let _ = guard(sim, || wal.flush());
        }
    }
    match guard(sim, || wal.flush()) {
        Ok(Ok(())) => (),
        e => return out.fail("wal-force-error", format!("{what}, a force afterwards: {e:?}")),
    }
    std::mem::forget(wal);
    match guard(sim, || Wal::open(Path::new(&dir.join("axmos.log")))) {
        Ok(Ok(mut x)) => {
            compare(sim, &mut x, 2, &recs, recs.len(), recs.len(), &format!("{what}, more records, a force and another death"), out);
            std::mem::forget(x);
        }
        e => out.fail("wal-open-error", format!("{what}, opened once more: {:?}", e.map(|r| r.map(|_| ())))),
    }
}

fn compare_analysis(sim: &'static Sim, wal: &mut Wal, recs: &[WalRec], out: &mut Outcome) {
    // The records the engine writes carry ids for these kinds.
    if recs.iter().any(|r| matches!(r.kind, 6..=11) && (r.oid.is_none() || r.row.is_none())) {
        return;
    }
    let mut redo = std::collections::BTreeSet::new();
    let mut undo = std::collections::BTreeSet::new();
    for r in recs {
        match r.kind {
            0 => {
                undo.insert(r.tid);
            }
            1 => {
                undo.remove(&r.tid);
                redo.insert(r.tid);
            }
            2 => {
                redo.remove(&r.tid);
                undo.insert(r.tid);
            }
            _ => {}
        }
    }
    // A transaction number is used once in a log; skip sequences the engine never writes.
    let mut begun = std::collections::BTreeSet::new();
    for r in recs {
        if r.kind == 0 && !begun.insert(r.tid) {
            return;
        }
    }
    out.checks += 1;
    match guard(sim, || wal.analysis()) {
        Err(p) => out.fail("wal-read-panic", format!("analysis: {p}")),
        Ok(Err(e)) => out.fail("wal-read-error", format!("analysis: {e}")),
        Ok(Ok((mut r, mut u))) => {
            r.sort();
            u.sort();
            let wr: Vec<u64> = redo.into_iter().collect();
            let wu: Vec<u64> = undo.into_iter().collect();
            if r != wr || u != wu {
                out.fail("wal-analysis", format!("analysis found committed {r:?} and unfinished {u:?}, the records say {wr:?} and {wu:?}"));
            }
        }
    }
}

pub fn run(sim: &'static Sim, plan: &Value, out: &mut Outcome) {
    let ops: Vec<Op> = serde_json::from_value(plan["ops"].clone()).expect("ops");
    let dir = PathBuf::from("/w0");
    let path = dir.join("axmos.log");
    let mut m = Model { recs: Vec::new(), forced: 0, maybe: 0, next_lsn: 1 };
    let mut wal = Some(Wal::create(&path).expect("create"));
    let mut torn_no = 0;
    let mut sample = String::new();
    for (k, op) in ops.iter().enumerate() {
        if !out.violations.is_empty() {
            break;
        }
        let w = wal.as_mut().unwrap();
        let here = format!("op {k} {op:?}");
        if sample.len() < 400 {
            sample.push_str(&format!("{op:?}; "));
        }
        match op {
            Op::Push { .. } | Op::Fit { .. } => {
                let mut r = match *op {
                    Op::Push { tid, prev, ids, kind, undo, redo, fill } => WalRec {
                        lsn: m.next_lsn,
                        tid,
                        prev: prev.then_some(m.next_lsn - 1),
                        oid: ids.then_some(fill % 1000),
                        row: ids.then_some(fill % 77777),
                        kind,
                        undo: payload(fill, undo),
                        redo: payload(fill.rotate_left(9), redo),
                    },
                    Op::Fit { tid, kind, fill, left } => {
                        // Fill a whole block up to `left` bytes.
                        let mut r = WalRec { lsn: m.next_lsn, tid, prev: None, oid: Some(3), row: Some(4), kind, undo: vec![], redo: vec![] };
                        let (base, max) = w.sizes(&r);
                        let want = max.saturating_sub(left).saturating_sub(base);
                        r.undo = payload(fill, want / 3);
                        r.redo = payload(fill ^ 5, want - want / 3);
                        r
                    }
                    _ => unreachable!(),
                };
                let (size, max) = w.sizes(&r);
                if size > max {
                    r.undo.clear();
                    r.redo.truncate(1000);
                }
                match guard(sim, || w.push(&r)) {
                    Err(p) => out.fail("wal-append-panic", format!("{here}: {p}")),
                    Ok(Err(e)) => out.fail("wal-append-error", format!("{here}: {e}")),
                    Ok(Ok(())) => {
                        m.recs.push(r);
                        m.next_lsn += 1;
                        out.checks += 1;
                        if w.last_lsn() != Some(m.next_lsn - 1) {
                            out.fail("wal-lsn", format!("{here}: last sequence number {:?} after appending {}", w.last_lsn(), m.next_lsn - 1));
                        }
                    }
                }
                if size * 2 > max {
                    out.probe("records above half a block");
                }
            }
            Op::TooBig { over } => {
                let mut r = WalRec { lsn: m.next_lsn, tid: 1, prev: None, oid: None, row: None, kind: 8, undo: vec![], redo: vec![] };
                let (base, max) = w.sizes(&r);
                let n = max - base + 1 + over;
                // Round up to what really exceeds the limit.
                r.redo = payload(7, n);
                let (size, _) = w.sizes(&r);
                if size > max {
                    match guard(sim, || w.push(&r)) {
                        Err(p) => out.fail("wal-append-panic", format!("{here}: {p}")),
                        Ok(Ok(())) => out.fail("wal-append-error", format!("{here}: a record of {size} bytes was accepted, the block holds {max}")),
                        Ok(Err(_)) => out.probe("oversized record refused"),
                    }
                }
            }
            Op::Force => match guard(sim, || w.flush()) {
                Err(p) => out.fail("wal-force-panic", format!("{here}: {p}")),
                Ok(Err(e)) => out.fail("wal-force-error", format!("{here}: {e}")),
                Ok(Ok(())) => {
                    m.forced = m.recs.len();
                    m.maybe = m.forced;
                    out.probe("forces");
                    out.state(fnv(m.forced as u64, &(m.next_lsn % 64).to_le_bytes()));
                }
            },
            Op::FailForce { fault } => {
                sim.fs(|f| {
                    f.log_root = Some(dir.clone());
                    f.arm(vec![fault.clone()])
                });
                let r = guard(sim, || w.flush());
                sim.fs(|f| f.disarm());
                match r {
                    Err(p) => out.fail("wal-force-panic", format!("{here}: {p}")),
                    Ok(Ok(())) => {
                        m.forced = m.recs.len();
                        m.maybe = m.forced;
                    }
                    Ok(Err(_)) => {
                        m.maybe = m.recs.len();
                        out.probe("forces that failed");
                    }
                }
            }
            Op::Truncate => match guard(sim, || w.truncate()) {
                Err(p) => out.fail("wal-force-panic", format!("{here}: {p}")),
                Ok(Err(e)) => out.fail("wal-force-error", format!("{here}: {e}")),
                Ok(Ok(())) => {
                    m.recs.clear();
                    m.forced = 0;
                    m.maybe = 0;
                    out.probe("truncations");
                }
            },
            Op::Reopen => {
                // Closing forces the log.
                if let Err(p) = guard(sim, || drop(wal.take())) {
                    out.fail("wal-force-panic", format!("{here}: close: {p}"));
                    break;
                }
                m.forced = m.recs.len();
                m.maybe = m.forced;
                match guard(sim, || Wal::open(&path)) {
                    Err(p) => {
                        out.fail("wal-open-panic", format!("{here}: {p}"));
                        break;
                    }
                    Ok(Err(e)) => {
                        out.fail("wal-open-error", format!("{here}: {e}"));
                        break;
                    }
                    Ok(Ok(x)) => wal = Some(x),
                }
                out.probe("reopens");
                if !m.recs.is_empty() {
                    out.checks += 1;
                    let l = wal.as_ref().unwrap().last_lsn();
                    if l != Some(m.recs.last().unwrap().lsn) {
                        out.fail("wal-lsn", format!("{here}: last sequence number {l:?} after reopening, {} was appended", m.recs.last().unwrap().lsn));
                    }
                }
                compare(sim, wal.as_mut().unwrap(), 1 + k % 7, &m.recs, m.forced, m.forced, &here, out);
            }
            Op::Crash => {
                let image = sim.fs(|f| f.image(&dir));
                // The dead process writes nothing more: forget the old handle without running its destructor.
                std::mem::forget(wal.take());
                sim.fs(|f| f.mount(&dir, &image));
                match guard(sim, || Wal::open(&path)) {
                    Err(p) => {
                        out.fail("wal-open-panic", format!("{here}: {p}"));
                        break;
                    }
                    Ok(Err(e)) => {
                        out.fail("wal-open-error", format!("{here}: {e}"));
                        break;
                    }
                    Ok(Ok(x)) => wal = Some(x),
                }
                out.probe("process deaths");
                if !compare(sim, wal.as_mut().unwrap(), 1 + k % 7, &m.recs, m.forced, m.maybe, &here, out) {
                    break;
                }
                let n = wal.as_mut().unwrap().read(3, m.recs.len() + 10).map(|v| v.len()).unwrap_or(0);
                m.recs.truncate(n);
                m.forced = n;
                m.maybe = n;
            }
            Op::Read { ahead } => {
                if m.forced == m.maybe && m.forced < m.recs.len() {
                    out.probe("reads with records not yet forced");
                }
                compare(sim, w, *ahead, &m.recs, m.forced, m.maybe, &here, out);
            }
            Op::TornForce | Op::TornTruncate => {
                let before = sim.fs(|f| {
                    let i = f.image(&dir);
                    f.start_log(&dir);
                    i
                });
                let torn_force = matches!(op, Op::TornForce);
                let r = guard(sim, || if torn_force { w.flush() } else { w.truncate() });
                let log = relative(sim.fs(|f| f.stop_log()), &dir);
                if !matches!(r, Ok(Ok(()))) {
                    out.fail("wal-force-error", format!("{here}: {r:?}"));
                    break;
                }
                // After each operation, and within the next one if it writes more than a sector.
                let mut cuts = Vec::new();
                for cut in 0..=log.len() {
                    cuts.push((cut, 0));
                    if let Some(FsOp::Write(_, _, data)) = log.get(cut) {
                        let sectors = data.len() / SECTOR;
                        let first = (before.values().map(|f| f.len()).sum::<usize>() + k * 7 + cut) % 37;
                        cuts.extend((1..sectors).skip(first).step_by(37).map(|s| (cut, s * SECTOR)));
                    }
                }
                for (cut, part) in cuts {
                    torn_no += 1;
                    let d = PathBuf::from(format!("/w{torn_no}"));
                    let mut img = before.clone();
                    for o in &log[..cut] {
                        apply(&mut img, o);
                    }
                    if part > 0 {
                        apply(&mut img, &log[cut].first(part));
                        out.probe("process deaths inside a write");
                    }
                    sim.fs(|f| f.mount(&d, &img));
                    let at = format!("{here}, process death after {cut} of its {} file operations and {part} bytes of the next", log.len());
                    match guard(sim, || Wal::open(Path::new(&d.join("axmos.log")))) {
                        Err(p) => out.fail("wal-open-panic", format!("{at}: {p}")),
                        Ok(Err(e)) => out.fail("wal-open-error", format!("{at}: {e}")),
                        Ok(Ok(mut x)) => {
                            let (lo, hi) = match (torn_force, cut == log.len()) {
                                (true, true) => (m.recs.len(), m.recs.len()),
                                (true, false) => (m.forced, m.recs.len()),
                                (false, true) => (0, 0),
                                (false, false) => (0, m.maybe),
                            };
                            let found = read_back(sim, &mut x, 1 + cut % 5, &m.recs, lo, hi, &at, out);
                            match found {
                                Some(n) if out.violations.is_empty() => go_on(sim, x, &d, &m.recs[..n], m.next_lsn + 5, torn_no, &at, out),
                                _ => std::mem::forget(x),
                            }
                        }
                    }
                    sim.fs(|f| f.mount(&d, &Default::default()));
                    out.probe("process deaths inside a force or truncation");
                }
                if torn_force {
                    m.forced = m.recs.len();
                    m.maybe = m.forced;
                } else {
                    m.recs.clear();
                    m.forced = 0;
                    m.maybe = 0;
                }
            }
        }
    }
    if out.violations.is_empty() {
        let w = wal.as_mut().unwrap();
        match guard(sim, || w.flush()) {
            Ok(Ok(())) => {
                for ahead in [1, 2, 3, 4, 7, 16] {
                    if !compare(sim, w, ahead, &m.recs, m.recs.len(), m.recs.len(), "at the end", out) {
                        break;
                    }
                }
                if out.violations.is_empty() {
                    compare_analysis(sim, w, &m.recs, out);
                }
            }
            e => out.fail("wal-force-error", format!("at the end: {e:?}")),
        }
    }
    std::mem::forget(wal);
    out.nontrivial = m.next_lsn > 3;
    out.sample = sample;
}
