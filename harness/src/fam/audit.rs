//! Structural audit of trees and of the ownership of every page of a file.
use axmosdb::{
    DataType,
    verif::facade::{Store, Tree},
};
use std::{
    cmp::Ordering,
    collections::{BTreeMap, BTreeSet},
};

pub fn cmp_data(a: &DataType, b: &DataType) -> Ordering {
    match (a, b) {
        (DataType::Bool(x), DataType::Bool(y)) => x.value().cmp(&y.value()),
        (DataType::Int(x), DataType::Int(y)) => x.value().cmp(&y.value()),
        (DataType::BigInt(x), DataType::BigInt(y)) => x.value().cmp(&y.value()),
        (DataType::UInt(x), DataType::UInt(y)) => x.value().cmp(&y.value()),
        (DataType::BigUInt(x), DataType::BigUInt(y)) => x.value().cmp(&y.value()),
        (DataType::Float(x), DataType::Float(y)) => x.value().partial_cmp(&y.value()).unwrap_or(Ordering::Equal),
        (DataType::Double(x), DataType::Double(y)) => x.value().partial_cmp(&y.value()).unwrap_or(Ordering::Equal),
        (DataType::Blob(x), DataType::Blob(y)) => x.data().unwrap_or(&[]).cmp(y.data().unwrap_or(&[])),
        _ => Ordering::Equal,
    }
}

pub fn cmp_keys(a: &[DataType], b: &[DataType]) -> Ordering {
    for (x, y) in a.iter().zip(b) {
        match cmp_data(x, y) {
            Ordering::Equal => {}
            o => return o,
        }
    }
    a.len().cmp(&b.len())
}

#[derive(Default)]
pub struct TreeReport {
    pub problems: Vec<(String, String)>,
    /// Every page of the tree.
    pub nodes: Vec<u64>,
    pub leaves: Vec<u64>,
    /// Heads of the overflow chains with the page and slot of the cell that refers to them.
    pub chains: Vec<(u64, u64, usize)>,
    pub depth: usize,
    pub keys: Vec<Vec<DataType>>,
}

impl TreeReport {
    fn bad(&mut self, class: &str, msg: String) {
        if self.problems.len() < 6 {
            self.problems.push((class.into(), msg));
        }
    }
}

/// Walks one tree from its root and checks the structure of the ordered map.
pub fn tree(store: &Store, t: &Tree, what: &str) -> TreeReport {
    let mut r = TreeReport::default();
    let mut seen = BTreeSet::new();
    walk(store, t, t.root(), None, None, 1, &mut seen, &mut r, what);
    // The leaves form one list in key order.
    let mut prev: Option<u64> = None;
    let leaves = r.leaves.clone();
    for (i, l) in leaves.iter().enumerate() {
        if let Ok(n) = t.node(store, *l) {
            let next = leaves.get(i + 1).copied();
            if n.prev != prev {
                r.bad("tree-links", format!("{what}: leaf {l} has previous sibling {:?}, in key order it is {prev:?}", n.prev));
            }
            if n.next != next {
                r.bad("tree-links", format!("{what}: leaf {l} has next sibling {:?}, in key order it is {next:?}", n.next));
            }
            prev = Some(*l);
        }
    }
    r
}

#[allow(clippy::too_many_arguments)]
fn walk(
    store: &Store,
    t: &Tree,
    id: u64,
    lo: Option<&[DataType]>,
    hi: Option<&[DataType]>,
    depth: usize,
    seen: &mut BTreeSet<u64>,
    r: &mut TreeReport,
    what: &str,
) {
    if depth > 40 {
        return r.bad("tree-depth", format!("{what}: more than 40 levels at page {id}"));
    }
    if !seen.insert(id) {
        return r.bad("page-two-owners", format!("{what}: page {id} is reached twice in one tree"));
    }
    let n = match t.node(store, id) {
        Ok(n) => n,
        Err(e) => return r.bad("tree-page", format!("{what}: page {id}: {e}")),
    };
    if n.header_id != id {
        r.bad("tree-page", format!("{what}: page {id} says it is page {}", n.header_id));
    }
    r.nodes.push(id);
    let mut keys: Vec<Vec<DataType>> = Vec::new();
    for (slot, c) in n.cells.iter().enumerate() {
        if let Some(o) = c.overflow {
            r.chains.push((o, id, slot));
        }
        match &c.keys {
            Ok(k) => keys.push(k.clone()),
            Err(e) => {
                r.bad("tree-cell", format!("{what}: page {id} slot {slot} cannot be read: {e}"));
                return;
            }
        }
    }
    for w in keys.windows(2) {
        if cmp_keys(&w[0], &w[1]) != Ordering::Less {
            r.bad("tree-order", format!("{what}: page {id} holds {} before {}", super::vals::brief_row(&w[0]), super::vals::brief_row(&w[1])));
        }
    }
    for k in &keys {
        if lo.is_some_and(|l| cmp_keys(k, l) == Ordering::Less) || hi.is_some_and(|h| cmp_keys(k, h) != Ordering::Less) {
            r.bad(
                "tree-separator",
                format!(
                    "{what}: page {id} (level {depth}) holds {} outside of its bounds [{}, {})",
                    super::vals::brief_row(k),
                    lo.map(super::vals::brief_row).unwrap_or("-".into()),
                    hi.map(super::vals::brief_row).unwrap_or("-".into())
                ),
            );
        }
    }
    if n.leaf {
        if r.depth == 0 {
            r.depth = depth;
        } else if r.depth != depth {
            r.bad("tree-depth", format!("{what}: leaf {id} at level {depth}, others at level {}", r.depth));
        }
        if n.cells.iter().any(|c| c.left_child.is_some()) {
            r.bad("tree-page", format!("{what}: a cell of leaf {id} has a child"));
        }
        if keys.is_empty() && depth > 1 {
            r.bad("tree-page", format!("{what}: leaf {id} is empty"));
        }
        r.leaves.push(id);
        r.keys.extend(keys);
        return;
    }
    let mut low = lo;
    for (slot, c) in n.cells.iter().enumerate() {
        match c.left_child {
            None => r.bad("tree-page", format!("{what}: page {id} slot {slot} has no child")),
            Some(ch) => walk(store, t, ch, low, Some(&keys[slot]), depth + 1, seen, r, what),
        }
        low = Some(&keys[slot]);
    }
    match n.right_child {
        None => r.bad("tree-page", format!("{what}: interior page {id} has no right child")),
        Some(ch) => walk(store, t, ch, low, hi, depth + 1, seen, r, what),
    }
}

/// Checks that every page but page zero has exactly one owner.
/// `trees` are the reports of all the trees of the file. Returns (problems, free pages, chain pages).
pub fn ownership(store: &Store, trees: &[(String, TreeReport)], lost_ok: &BTreeSet<u64>) -> (Vec<(String, String)>, u64, u64) {
    let info = store.info();
    let mut owner: BTreeMap<u64, String> = BTreeMap::new();
    let mut bad: Vec<(String, String)> = Vec::new();
    let mut chain_pages = 0;
    let mut own = |p: u64, who: String, bad: &mut Vec<(String, String)>| -> bool {
        if p == 0 || p >= info.total_pages {
            bad.push(("page-range".into(), format!("{who} is page {p}, the file has pages 1..{}", info.total_pages)));
            return false;
        }
        match owner.insert(p, who.clone()) {
            None => true,
            Some(old) => {
                bad.push(("page-two-owners".into(), format!("page {p} is {old} and also {who}")));
                false
            }
        }
    };
    for (name, t) in trees {
        for n in &t.nodes {
            own(*n, format!("a node of {name}"), &mut bad);
        }
    }
    for (name, t) in trees {
        for (head, page, slot) in &t.chains {
            let mut cur = Some(*head);
            let mut n = 0u64;
            while let Some(p) = cur {
                if !own(p, format!("link {n} of the overflow chain of page {page} slot {slot} of {name}"), &mut bad) {
                    break;
                }
                chain_pages += 1;
                n += 1;
                match store.link(p) {
                    Ok(l) => cur = l.next,
                    Err(e) => {
                        bad.push(("page-chain".into(), format!("page {p}: {e}")));
                        break;
                    }
                }
            }
        }
        if bad.len() > 5 {
            break;
        }
    }
    let mut free = 0u64;
    let mut cur = info.first_free;
    let mut last = None;
    while let Some(p) = cur {
        if !own(p, format!("free page number {free}"), &mut bad) {
            break;
        }
        free += 1;
        last = Some(p);
        match store.link(p) {
            Ok(l) => cur = l.next,
            Err(e) => {
                bad.push(("page-free-list".into(), format!("page {p}: {e}")));
                break;
            }
        }
    }
    if bad.is_empty() {
        if last != info.last_free {
            bad.push(("page-free-list".into(), format!("the free list ends at {last:?}, the header says {:?}", info.last_free)));
        }
        let lost: Vec<u64> = (1..info.total_pages).filter(|p| !owner.contains_key(p) && !lost_ok.contains(p)).collect();
        if !lost.is_empty() {
            bad.push(("page-lost".into(), format!("{} of {} pages have no owner: {:?}", lost.len(), info.total_pages, lost.iter().take(12).collect::<Vec<_>>())));
        }
    }
    (bad, free, chain_pages)
}
