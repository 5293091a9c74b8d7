//! C10 (ordered map, structure) and C11 (page ownership): one tree over a real page store, under cache pressure,
//! benign I/O faults (short and interrupted transfers) and close/reopen, against a sorted map.
use super::{audit, guard, vals::*};
use crate::{
    orch::{Outcome, fnv},
    rng::Rng,
    sim::{IoFault, Sim},
};
use axmosdb::{DBConfig, DataType, verif::facade::{RowSchema, Store, Tree}};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::{cmp::Ordering, collections::BTreeMap, collections::BTreeSet, path::PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// Key number, payload length.
    Ins(u64, usize),
    Upd(u64, usize),
    Ups(u64, usize),
    Rem(u64),
    Get(u64),
    Scan,
    Audit,
    Reopen,
    /// Free every page of the tree and start a new one.
    Drop,
}

pub fn generate(prop: &str, rng: &mut Rng, i: u64, thorough: bool) -> Value {
    let page = *rng.pick(&[4096u64, 4096, 4096, 4096, 8192, 16384, 65536]);
    let min_keys = 3 + rng.usize(4);
    let sib = 1 + rng.usize(3);
    let cache = *rng.pick(&[24u64, 40, 100, 1000]);
    let kinds: Vec<K> = match i % 6 {
        0 => vec![K::BigUInt],
        1 => vec![K::Text],
        2 => vec![*rng.pick(&[K::BigInt, K::Int, K::UInt])],
        3 => vec![K::Text, K::BigInt],
        4 => vec![K::Int, K::Text],
        _ => (0..1 + rng.usize(3)).map(|_| *rng.pick(&[K::Int, K::BigInt, K::UInt, K::BigUInt, K::Text, K::Double])).collect(),
    };
    let has_text = kinds.contains(&K::Text);
    let key_text = if has_text { *rng.pick(&[10usize, 10, 60, 200, 600]) } else { 0 };
    let universe = *rng.pick(&[20u64, 60, 200, 600, 1500]);
    let n = if thorough { 200 + rng.usize(1600) } else { 100 + rng.usize(500) };
    let n = if prop == "C11" { n / 2 } else { n };
    // Payload regimes: small, page fractions, overflow chains, mixed.
    let regime = rng.usize(6);
    let len = |r: &mut Rng| -> usize {
        match regime {
            0 => r.usize(60),
            1 => r.usize(page as usize / 3),
            2 => page as usize / 5 + r.usize(page as usize / 10),
            3 => match r.usize(10) {
                0 => r.usize(page as usize * 5),
                1 | 2 => page as usize / 4 + r.usize(page as usize),
                _ => r.usize(200),
            },
            4 => page as usize / (min_keys + 1) - 40 + r.usize(120),
            _ => match r.usize(20) {
                0 => r.usize(page as usize * 12),
                1..=4 => r.usize(page as usize / 2),
                _ => r.usize(30),
            },
        }
    };
    let mut ops = Vec::new();
    let mut next = 0u64;
    while ops.len() < n {
        // Phases with different characters.
        let m = 10 + rng.usize(n / 3 + 1);
        let phase = rng.usize(8);
        for k in 0..m as u64 {
            let key = match phase {
                0 => {
                    next += 1;
                    next % universe
                }
                1 => universe.wrapping_sub(1 + k) % universe,
                _ => rng.below(universe),
            };
            let l = len(rng);
            ops.push(match phase {
                0..=2 => match rng.usize(12) {
                    0 => Op::Rem(key),
                    1 => Op::Get(key),
                    2 => Op::Ins(key, l),
                    _ => Op::Ups(key, l),
                },
                3 => match rng.usize(10) {
                    0 => Op::Ups(key, l),
                    _ => Op::Rem(key),
                },
                4 => match rng.usize(6) {
                    0 => Op::Ins(key, l),
                    1 => Op::Get(key),
                    _ => Op::Upd(key, l),
                },
                5 => {
                    // Remove in key order, from the front or the back.
                    let key = if m % 2 == 0 { k % universe } else { universe - 1 - k % universe };
                    Op::Rem(key)
                }
                _ => match rng.usize(10) {
                    0 | 1 => Op::Rem(key),
                    2 => Op::Upd(key, l),
                    3 => Op::Get(key),
                    4 | 5 => Op::Ins(key, l),
                    _ => Op::Ups(key, l),
                },
            });
        }
        if rng.chance(300) {
            ops.push(Op::Scan);
        }
        if rng.chance(150) {
            ops.push(Op::Reopen);
        }
        if rng.chance(if prop == "C11" { 150 } else { 30 }) {
            ops.push(Op::Drop);
        }
        if rng.chance(500) {
            ops.push(Op::Audit);
        }
    }
    let mut faults = Vec::new();
    if rng.chance(250) {
        for _ in 0..1 + rng.usize(6) {
            faults.push(IoFault {
                at: rng.below(400),
                op: rng.pick(&["read", "write"]).to_string(),
                kind: rng.pick(&["short", "intr"]).to_string(),
                count: 1 + rng.below(3),
            });
        }
    }
    json!({
        "sched": {"seed": rng.next() >> 1, "preempt": 0, "script": null, "max_steps": 200_000_000u64},
        "page": page, "min_keys": min_keys, "sib": sib, "cache": cache, "kinds": kinds, "key_text": key_text,
        "universe": universe, "salt": rng.next() >> 1, "ops": ops, "faults": faults,
    })
}

struct Keys {
    kinds: Vec<K>,
    text: usize,
    universe: u64,
    salt: u64,
}

impl Keys {
    /// The key with this number: distinct numbers give distinct keys, in no particular order for text.
    fn key(&self, n: u64) -> Vec<W> {
        let last = self.kinds.len() - 1;
        let mut r = Rng::new(self.salt ^ n.wrapping_mul(0x9E37));
        self.kinds
            .iter()
            .enumerate()
            .map(|(i, k)| {
                // Leading parts repeat, the last one tells keys apart.
                let x = if i == last { n } else { n % 7 };
                match k {
                    K::BigUInt => W::M(if i == last && self.salt % 3 == 0 { x << 40 } else { x }),
                    K::UInt => W::U(x as u32),
                    K::Int => W::I(x as i32 - (self.universe / 2) as i32),
                    K::BigInt => W::L((x as i64 - (self.universe / 2) as i64) * if self.salt % 2 == 0 { 1 } else { 1 << 33 }),
                    K::Double | K::Float => W::D((x as f64 * 0.5 - 20.0).to_bits()),
                    K::Bool => W::B(x % 2 == 0),
                    K::Text => {
                        if i != last {
                            W::T(["", "a", "ab", "b", "zz", "é", "aa"][x as usize].into())
                        } else {
                            match self.salt % 3 {
                                // Zero padded: insertion order is key order.
                                0 => W::G(format!("{x:06}"), n ^ self.salt, 6 + if self.text > 10 { r.usize(self.text) } else { 0 }),
                                1 => W::G(format!("k{x}-"), n ^ self.salt, 8 + r.usize(self.text)),
                                _ => W::G(format!("prefix-prefix-prefix-{}", x), n, 22 + r.usize(self.text)),
                            }
                        }
                    }
                }
            })
            .collect()
    }
}

#[derive(Clone)]
struct Entry {
    key: Vec<W>,
    len: usize,
    tag: u64,
}

fn cmpw(a: &[W], b: &[W]) -> Ordering {
    for (x, y) in a.iter().zip(b) {
        match x.cmp(y) {
            Ordering::Equal => {}
            o => return o,
        }
    }
    Ordering::Equal
}

pub fn run(sim: &'static Sim, plan: &Value, out: &mut Outcome) {
    let ops: Vec<Op> = serde_json::from_value(plan["ops"].clone()).unwrap();
    let keys = Keys {
        kinds: serde_json::from_value(plan["kinds"].clone()).unwrap(),
        text: plan["key_text"].as_u64().unwrap() as usize,
        universe: plan["universe"].as_u64().unwrap(),
        salt: plan["salt"].as_u64().unwrap(),
    };
    let prop = plan["prop"].as_str().unwrap_or("").to_string();
    let g = |f: &str| plan[f].as_u64().unwrap() as usize;
    let cfg = DBConfig::new(g("page"), g("cache"), 1, g("min_keys"), g("sib"));
    let dir = PathBuf::from("/v0/axmos.db");
    let mut cols: Vec<_> = keys.kinds.iter().enumerate().map(|(i, k)| (if *k == K::Float { K::Double.kind() } else { k.kind() }, format!("k{i}"))).collect();
    cols.push((K::BigInt.kind(), "tag".into()));
    cols.push((K::Text.kind(), "body".into()));
    let schema = RowSchema::new(&cols, keys.kinds.len());
    let row = |key: &[W], len: usize, tag: u64| -> Vec<DataType> {
        let mut v: Vec<DataType> = key.iter().map(|w| w.data()).collect();
        v.push(W::L(tag as i64).data());
        v.push(W::G(String::new(), tag, len).data());
        v
    };
    let mut store = Some(Store::create(&dir, cfg).expect("create"));
    let faults: Vec<IoFault> = serde_json::from_value(plan["faults"].clone()).unwrap_or_default();
    let root = store.as_ref().unwrap().allocate_node().expect("root");
    let mut tree = store.as_ref().unwrap().tree(root, g("min_keys"), g("sib"), &schema);
    let mut root = root;
    if !faults.is_empty() {
        sim.fs(|f| {
            f.log_root = Some(PathBuf::from("/v0"));
            f.arm(faults)
        });
    }
    let mut model: BTreeMap<u64, Entry> = BTreeMap::new();
    let mut tag = 0u64;
    let mut max_depth = 0;
    let mut max_pages = 1;
    // Out-of-memory from a cache too small for one operation is allowed; what was in flight is then unknown.
    for (k, op) in ops.iter().enumerate() {
        if !out.violations.is_empty() {
            break;
        }
        let what = format!("op {k} {op:?}");
        tag += 1;
        macro_rules! call {
            ($e:expr) => {
                match guard(sim, || $e) {
                    Ok(r) => r,
                    Err(p) => {
                        out.fail("tree-panic", format!("{what}: {p}"));
                        break;
                    }
                }
            };
        }
        match op {
            Op::Ins(n, len) | Op::Upd(n, len) | Op::Ups(n, len) => {
                let key = keys.key(*n);
                let r = row(&key, *len, tag);
                let present = model.contains_key(n);
                let (got, want) = match op {
                    Op::Ins(..) => (call!(tree.insert(&r)), !present),
                    Op::Upd(..) => (call!(tree.update(&r)), present),
                    _ => (call!(tree.upsert(&r)), true),
                };
                out.checks += 1;
                match (&got, want) {
                    (Ok(()), true) => {
                        model.insert(*n, Entry { key, len: *len, tag });
                    }
                    (Err(_), false) => {}
                    _ => {
                        out.fail("tree-result", format!("{what}: {got:?}, the key was {}", if present { "present" } else { "absent" }));
                    }
                }
            }
            Op::Rem(n) => {
                let key = keys.key(*n);
                let r = row(&key, 0, 0);
                let present = model.contains_key(n);
                let got = call!(tree.remove(&r, false));
                out.checks += 1;
                match (&got, present) {
                    (Ok(()), true) => {
                        model.remove(n);
                    }
                    (Err(_), false) => {}
                    _ => out.fail("tree-result", format!("{what}: {got:?}, the key was {}", if present { "present" } else { "absent" })),
                }
            }
            Op::Get(n) => {
                let key = keys.key(*n);
                let got = call!(tree.get(&row(&key, 0, 0), false));
                out.checks += 1;
                check_get(&got, model.get(n), &what, out);
            }
            Op::Scan => {
                let got = call!(tree.scan(model.len() + 1000));
                check_scan(&got, &model, &what, out);
            }
            Op::Audit => {
                let store = store.as_ref().unwrap();
                let d = call!(full_audit(store, &tree, &model, &what, prop == "C11", out));
                max_depth = max_depth.max(d);
                max_pages = max_pages.max(store.info().total_pages);
            }
            Op::Reopen => {
                drop(tree);
                let r = guard(sim, || {
                    let s = store.take().unwrap();
                    let r = s.flush();
                    drop(s);
                    r.and_then(|_| Store::open(&dir))
                });
                match r {
                    Ok(Ok(s)) => {
                        tree = s.tree(root, g("min_keys"), g("sib"), &schema);
                        store = Some(s);
                        out.probe("reopens");
                    }
                    e => {
                        out.fail("tree-reopen", format!("{what}: {:?}", e.map(|r| r.map(|_| ()))));
                        return;
                    }
                }
            }
            Op::Drop => {
                let before = store.as_ref().unwrap().info();
                let r = call!(tree.dealloc());
                if let Err(e) = r {
                    out.fail("tree-dealloc", format!("{what}: {e}"));
                    break;
                }
                model.clear();
                let s = store.as_ref().unwrap();
                let (bad, free, _) = audit::ownership(s, &[], &BTreeSet::new());
                out.checks += 1;
                for (c, m) in bad {
                    out.fail(&c, format!("{what}, all pages should be free: {m}"));
                }
                if out.violations.is_empty() && free != s.info().total_pages - 1 {
                    out.fail("page-lost", format!("{what}: {free} free pages of {}", s.info().total_pages));
                }
                out.probe("trees dropped");
                match call!(s.allocate_node()) {
                    Ok(id) => root = id,
                    Err(e) => {
                        out.fail("tree-dealloc", format!("{what}: {e}"));
                        break;
                    }
                }
                if s.info().total_pages != before.total_pages {
                    out.fail("page-reuse", format!("{what}: {} pages are free and the file grew", free));
                }
                tree = s.tree(root, g("min_keys"), g("sib"), &schema);
            }
        }
        if k % 64 == 63 {
            let s = store.as_ref().unwrap();
            max_depth = max_depth.max(call!(full_audit(s, &tree, &model, &what, prop == "C11", out)));
            max_pages = max_pages.max(s.info().total_pages);
            out.state(fnv(max_depth as u64, &[(model.len() % 251) as u8, (s.info().total_pages % 251) as u8, (s.info().free_pages % 251) as u8]));
        }
    }
    if out.violations.is_empty() {
        let s = store.as_ref().unwrap();
        let r = guard(sim, || {
            let d = full_audit(s, &tree, &model, "at the end", true, out);
            check_scan(&tree.scan(model.len() + 1000), &model, "at the end", out);
            for n in 0..keys.universe {
                if !out.violations.is_empty() {
                    break;
                }
                let key = keys.key(n);
                let mut r: Vec<DataType> = key.iter().map(|w| w.data()).collect();
                r.push(W::L(0).data());
                r.push(W::T(String::new()).data());
                out.checks += 1;
                check_get(&tree.get(&r, false), model.get(&n), &format!("at the end, key {n}"), out);
            }
            d
        });
        match r {
            Ok(d) => max_depth = max_depth.max(d),
            Err(p) => out.fail("tree-panic", format!("at the end: {p}")),
        }
        max_pages = max_pages.max(s.info().total_pages);
    }
    sim.fs(|f| f.disarm());
    for e in model.values() {
        out.digest = fnv(out.digest, &e.tag.to_le_bytes());
    }
    out.probe_n(&format!("trees of depth {max_depth}"), 1);
    out.nontrivial = max_depth > 1 || max_pages > 3;
    out.sample = format!("page {} min keys {} siblings {} cache {} keys {:?}; {} ops, depth up to {max_depth}, {max_pages} pages, {} keys at the end", g("page"), g("min_keys"), g("sib"), g("cache"), keys.kinds, ops.len(), model.len());
    std::mem::forget(tree);
    std::mem::forget(store);
}

fn same(got: &[DataType], e: &Entry) -> bool {
    let n = e.key.len();
    got.len() == n + 2
        && e.key.iter().zip(got).all(|(w, d)| w.same(d))
        && W::L(e.tag as i64).same(&got[n])
        && W::G(String::new(), e.tag, e.len).same(&got[n + 1])
}

fn check_get(got: &Result<Option<Vec<DataType>>, String>, want: Option<&Entry>, what: &str, out: &mut Outcome) {
    match (got, want) {
        (Ok(None), None) => {}
        (Ok(Some(g)), Some(e)) if same(g, e) => {}
        (g, w) => out.fail(
            "tree-lookup",
            format!(
                "{what}: found {}, stored {}",
                match g {
                    Ok(Some(g)) => brief_row(g),
                    Ok(None) => "nothing".into(),
                    Err(e) => e.clone(),
                },
                w.map(|e| format!("{:?} {} bytes #{}", e.key, e.len, e.tag)).unwrap_or("nothing".into())
            ),
        ),
    }
}

fn check_scan(got: &Result<Vec<Vec<DataType>>, String>, model: &BTreeMap<u64, Entry>, what: &str, out: &mut Outcome) {
    out.checks += 1;
    let mut want: Vec<&Entry> = model.values().collect();
    want.sort_by(|a, b| cmpw(&a.key, &b.key));
    match got {
        Err(e) => out.fail("tree-scan", format!("{what}: {e}")),
        Ok(g) => {
            for (i, (a, b)) in g.iter().zip(&want).enumerate() {
                if !same(a, b) {
                    return out.fail("tree-scan", format!("{what}: entry {i} is {}, expected {:?} {} bytes #{}", brief_row(a), b.key, b.len, b.tag));
                }
            }
            if g.len() != want.len() {
                out.fail("tree-scan", format!("{what}: the scan gives {} entries, {} are stored", g.len(), want.len()));
            }
        }
    }
}

fn full_audit(store: &Store, tree: &Tree, model: &BTreeMap<u64, Entry>, what: &str, pages: bool, out: &mut Outcome) -> usize {
    let r = audit::tree(store, tree, what);
    out.checks += 1;
    for (c, m) in &r.problems {
        out.fail(c, m.clone());
    }
    if r.problems.is_empty() {
        let mut want: Vec<&Entry> = model.values().collect();
        want.sort_by(|a, b| cmpw(&a.key, &b.key));
        if r.keys.len() != want.len() || !r.keys.iter().zip(&want).all(|(g, e)| e.key.iter().zip(g).all(|(w, d)| w.same(d))) {
            out.fail("tree-contents", format!("{what}: the leaves hold {} keys, {} are stored", r.keys.len(), want.len()));
        }
    }
    let depth = r.depth;
    if pages && out.violations.is_empty() {
        out.checks += 1;
        let (bad, free, chains) = audit::ownership(store, &[("the tree".into(), r)], &BTreeSet::new());
        for (c, m) in bad {
            out.fail(&c, format!("{what}: {m}"));
        }
        if free > 0 {
            out.probe("audits with free pages");
        }
        if chains > 0 {
            out.probe("audits with overflow chains");
        }
    }
    depth
}
