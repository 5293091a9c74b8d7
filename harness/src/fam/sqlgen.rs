//! Plans for the sql family: what each property asks to be exercised.
use super::{sql::Op, sqlm::*};
use crate::sim::IoFault;
use crate::{engine::{Knobs, V}, rng::Rng};
use serde_json::{Value, json};

#[derive(Clone)]
pub struct Prof {
    pub ops: usize,
    pub sessions: usize,
    pub tables: usize,
    /// Weights: DML, query, DDL, begin, end, batch, flush, vacuum, analyze, reopen, check, failing DML, raw text.
    pub w: [u32; 13],
    /// Per mille of sessions that end in a commit.
    pub commit: u64,
    pub keys: i64,
    pub long: usize,
    pub bulk: usize,
    pub styles: bool,
    /// A database may be opened with a small cache.
    pub small: bool,
    /// Weights of insert, update, delete, insert-select.
    pub dml: [u32; 4],
}

pub fn profile(prop: &str, rng: &mut Rng, thorough: bool) -> Prof {
    let scale = if thorough { 2 } else { 1 };
    let mut p = Prof {
        ops: (30 + rng.usize(60)) * scale,
        sessions: 2,
        tables: 2,
        w: [40, 20, 4, 8, 8, 3, 1, 0, 1, 0, 2, 5, 0],
        commit: 600,
        keys: *rng.pick(&[6, 20, 60]),
        long: *rng.pick(&[20, 20, 60, 400, 3000]),
        bulk: *rng.pick(&[1, 3, 8, 20]),
        styles: false,
        small: matches!(prop, "C09" | "C12"),
        dml: [40, 35, 20, 5],
    };
    match prop {
        "C03" => {
            p.commit = 250;
            p.sessions = 3;
            p.w = [40, 10, 6, 9, 12, 6, 1, 1, 1, 1, 4, 12, 0];
        }
        "C04" => {
            p.sessions = 4;
            p.tables = 1 + rng.usize(2);
            p.w = [40, 35, 2, 12, 8, 2, 1, 0, 1, 0, 2, 3, 0];
            p.commit = 700;
        }
        "C06" => {
            p.sessions = 1;
            p.tables = 2 + rng.usize(2);
            p.w = [25, 60, 6, 2, 2, 1, 0, 1, 6, 0, 3, 2, 0];
            p.styles = true;
            p.bulk = *rng.pick(&[5, 15, 30]);
        }
        "C07" => {
            p.sessions = 3;
            p.keys = *rng.pick(&[3, 6, 12]);
            p.tables = 1 + rng.usize(2);
            p.w = [60, 6, 6, 9, 9, 4, 1, 2, 1, 2, 4, 12, 0];
        }
        "C09" => {
            p.w = [40, 10, 8, 6, 7, 2, 2, 2, 2, 9, 2, 3, 0];
        }
        "C12" => {
            p.long = *rng.pick(&[60, 400, 2000, 6000]);
            p.bulk = *rng.pick(&[5, 15, 40]);
            p.w = [50, 30, 4, 3, 3, 2, 1, 2, 2, 1, 3, 3, 0];
            p.sessions = 1;
        }
        "C13" => {
            p.w = [50, 12, 4, 7, 7, 2, 1, 12, 1, 1, 4, 4, 0];
            p.sessions = 3;
            p.dml = [25, 50, 25, 3];
        }
        "C10" | "C11" => {
            p.w = [50, 5, 8, 5, 5, 2, 1, 6, 1, 1, 8, 4, 0];
            p.long = *rng.pick(&[60, 400, 3000, 9000]);
            p.bulk = *rng.pick(&[3, 10, 30]);
            p.dml = [40, 30, 30, 4];
        }
        // Rows of many versions, read by transactions of all ages.
        "C18" => {
            p.sessions = 5;
            p.tables = 1;
            p.keys = *rng.pick(&[3, 6, 20]);
            p.w = [45, 30, 3, 12, 10, 2, 1, 1, 1, 1, 1, 3, 0];
            p.dml = [15, 65, 18, 2];
        }
        "C15" => {
            p.w = [25, 14, 30, 9, 10, 3, 1, 2, 2, 3, 5, 3, 0];
            p.sessions = 2;
            p.tables = 3;
        }
        // Crashes: many commits, and many transactions that never get there.
        "C01" => {
            p.ops = 10 + rng.usize(45);
            p.w = [50, 3, 8, 8, 10, 4, 3, 2, 1, 2, 0, 3, 0];
            p.commit = 850;
            p.sessions = 3;
            big(&mut p, rng);
            p.dml = [45, 30, 20, 5];
        }
        "C02" => {
            p.ops = 10 + rng.usize(45);
            p.w = [50, 2, 8, 12, 8, 6, 4, 1, 1, 1, 0, 10, 0];
            p.commit = 450;
            p.sessions = 4;
            big(&mut p, rng);
            p.dml = [35, 35, 25, 5];
        }
        "C08" => {
            p.ops = 8 + rng.usize(35);
            p.w = [45, 2, 12, 8, 8, 4, 5, 5, 2, 3, 0, 5, 0];
            p.sessions = 3;
            p.tables = 1 + rng.usize(3);
            big(&mut p, rng);
        }
        "C16" => {
            p.w = [30, 15, 8, 6, 6, 4, 1, 1, 1, 1, 4, 15, 40];
            p.sessions = 2;
        }
        _ => {}
    }
    p
}

/// Rows of all sizes, up to files much larger than the smaller caches and transactions of many blocks of the log.
fn big(p: &mut Prof, rng: &mut Rng) {
    (p.bulk, p.long) = *rng.pick(&[(1, 20), (1, 400), (2, 60), (5, 20), (5, 400), (15, 60), (15, 3000), (30, 400), (40, 3000), (30, 9000)]);
    if p.bulk * p.long > 20_000 {
        p.ops = p.ops.min(25);
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: Prof,
    /// What would be there if every statement had committed.
    pub s: State,
    pub ids: Ids,
    fresh: u32,
}

const WORDS: [&str; 12] = ["a", "b", "ab", "abc", "zz", "it's", "Zürich", "日本", "", "NULL", "x y", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: Prof) -> Self {
        Gen { r, p, s: State::default(), ids: Ids { row: 0, table: 0 }, fresh: 0 }
    }

    pub fn lit(&mut self, t: T, null: bool) -> L {
        if null && self.r.chance(120) {
            return L::N;
        }
        let k = self.p.keys;
        match t {
            T::Int => match self.r.usize(40) {
                0 => L::I(i32::MAX as i64 - 1000),
                1 => L::I(-(i32::MAX as i64) + 1000),
                _ => L::I(self.r.range(-2, k)),
            },
            T::Big => match self.r.usize(40) {
                0 => L::I(1 << 40),
                1 => L::I(-(1 << 40)),
                _ => L::I(self.r.range(-2, k * 3)),
            },
            T::Dbl => L::Q(self.r.range(-8, k * 4)),
            T::Bool => L::B(self.r.chance(500)),
            T::Text => {
                if self.r.chance(600) {
                    L::S(self.r.pick(&WORDS).to_string())
                } else {
                    let m = self.p.long;
                    let n = if self.r.chance(700) { self.r.usize(40.min(m) + 1) } else { self.r.usize(m + 1) };
                    // A few seeds, so that equal texts occur.
                    L::G(self.r.below(20), n)
                }
            }
        }
    }

    fn ty(&mut self) -> T {
        *self.r.pick(&[T::Int, T::Int, T::Big, T::Text, T::Text, T::Bool, T::Dbl])
    }

    fn fresh_col(&mut self) -> Col {
        self.fresh += 1;
        let t = self.ty();
        let default = if self.r.chance(300) { Some(self.lit(t, false)) } else { None };
        Col { name: format!("c{}", self.fresh), t, nn: self.r.chance(150), default }
    }

    pub fn create(&mut self, name: &str) -> St {
        let n = 1 + self.r.usize(4);
        let mut cols = Vec::new();
        let with_id = self.r.chance(800);
        if with_id {
            let t = *self.r.pick(&[T::Big, T::Big, T::Int, T::Text]);
            cols.push(Col { name: "id".into(), t, nn: self.r.chance(500), default: None });
        }
        for _ in 0..n {
            let c = self.fresh_col();
            cols.push(c);
        }
        let mut pk = if with_id && self.r.chance(700) { vec!["id".to_string()] } else { vec![] };
        if !pk.is_empty() && self.r.chance(150) {
            let c = cols[1 + self.r.usize(n)].clone();
            if c.t != T::Bool {
                pk.insert(self.r.usize(2), c.name);
            }
        }
        let mut uniq = Vec::new();
        if self.r.chance(350) {
            let c: Vec<String> = self.columns_of(&cols);
            if c != pk {
                uniq.push(c);
            }
        }
        St::Create { t: name.into(), cols, pk, uniq, ine: self.r.chance(100) }
    }

    fn columns_of(&mut self, cols: &[Col]) -> Vec<String> {
        let mut v: Vec<String> = cols.iter().filter(|c| c.t != T::Bool).map(|c| c.name.clone()).collect();
        if v.is_empty() {
            v = cols.iter().map(|c| c.name.clone()).collect();
        }
        let k = if v.len() > 1 && self.r.chance(450) { 2 } else { 1 };
        let mut out = Vec::new();
        while out.len() < k {
            let c = self.r.pick(&v).clone();
            if !out.contains(&c) {
                out.push(c);
            }
        }
        out
    }

    pub fn table(&mut self) -> Option<String> {
        let names: Vec<String> = self.s.tables.keys().cloned().collect();
        if names.is_empty() { None } else { Some(self.r.pick(&names).clone()) }
    }

    /// A value that a row of the table has in that column, or any.
    fn near(&mut self, t: &Table, c: usize) -> L {
        if self.r.chance(700) && !t.rows.is_empty() {
            let k = self.r.usize(t.rows.len());
            let v = t.rows.values().nth(k).unwrap()[c].clone();
            let l = match v {
                crate::engine::V::I(i) => Some(L::I(i)),
                crate::engine::V::B(b) => Some(L::B(b)),
                crate::engine::V::F(f) if f.abs() < 1e9 => Some(L::Q((f * 4.0) as i64)),
                crate::engine::V::S(s) if s.len() < 200 => Some(L::S(s)),
                _ => None,
            };
            if let Some(l) = l {
                return l;
            }
        }
        let ty = t.cols[c].t;
        self.lit(ty, false)
    }

    fn atom(&mut self, t: &Table) -> P {
        // Prefer the columns of constraints: they have indexes.
        let keyed: Vec<usize> = t.uniq.iter().flat_map(|u| u.cols.iter()).filter_map(|c| t.col(c)).collect();
        let c = if !keyed.is_empty() && self.r.chance(600) { *self.r.pick(&keyed) } else { self.r.usize(t.cols.len()) };
        let name = t.cols[c].name.clone();
        match self.r.weighted(&[45, 10, 8, 6, 6, 4]) {
            0 => {
                let op = *self.r.pick(&[Cmp::Eq, Cmp::Eq, Cmp::Eq, Cmp::Ne, Cmp::Lt, Cmp::Le, Cmp::Gt, Cmp::Ge]);
                P::Cmp(name, op, self.near(t, c))
            }
            1 => {
                let (a, b) = (self.near(t, c), self.near(t, c));
                P::Between(name, a, b)
            }
            2 => {
                let n = 1 + self.r.usize(3);
                let l = (0..n).map(|_| self.near(t, c)).collect();
                P::In(name, l)
            }
            3 => P::IsNull(name),
            4 if matches!(t.cols[c].t, T::Int | T::Big) => {
                P::Plus(name, self.r.range(0, 3), *self.r.pick(&[Cmp::Eq, Cmp::Lt, Cmp::Ge]), self.r.range(0, self.p.keys))
            }
            _ => {
                let same: Vec<usize> = (0..t.cols.len()).filter(|k| *k != c && t.cols[*k].t == t.cols[c].t).collect();
                if same.is_empty() {
                    let op = *self.r.pick(&[Cmp::Eq, Cmp::Le]);
                    P::Not(Box::new(P::Cmp(name, op, self.near(t, c))))
                } else {
                    let o = *self.r.pick(&same);
                    P::Cols(name, *self.r.pick(&[Cmp::Eq, Cmp::Lt, Cmp::Ge, Cmp::Ne]), t.cols[o].name.clone())
                }
            }
        }
    }

    pub fn pred(&mut self, t: &Table, all: u64) -> P {
        if self.r.chance(all) {
            return P::True;
        }
        let a = self.atom(t);
        match self.r.weighted(&[50, 22, 12, 16]) {
            0 => a,
            1 => P::And(Box::new(a), Box::new(self.atom(t))),
            2 => P::Or(Box::new(a), Box::new(self.atom(t))),
            _ => {
                let mut p = a;
                for _ in 0..1 + self.r.usize(3) {
                    let b = if self.r.chance(600) { self.bound(t) } else { self.atom(t) };
                    p = if self.r.chance(500) { P::And(Box::new(p), Box::new(b)) } else { P::And(Box::new(b), Box::new(p)) };
                }
                p
            }
        }
    }

    /// A bound on a column that has an index.
    fn bound(&mut self, t: &Table) -> P {
        let keyed: Vec<usize> = t.uniq.iter().flat_map(|u| u.cols.iter()).filter_map(|c| t.col(c)).collect();
        let c = if keyed.is_empty() { self.r.usize(t.cols.len()) } else { *self.r.pick(&keyed) };
        let op = *self.r.pick(&[Cmp::Lt, Cmp::Le, Cmp::Gt, Cmp::Ge, Cmp::Le, Cmp::Ge, Cmp::Eq]);
        P::Cmp(t.cols[c].name.clone(), op, self.near(t, c))
    }

    /// A join of two to four tables, or of a table with itself.
    fn join_n(&mut self) -> Option<St> {
        let n = 2 + self.r.weighted(&[55, 35, 10]);
        let mut ts: Vec<String> = Vec::new();
        let mut tabs: Vec<std::sync::Arc<Table>> = Vec::new();
        let mut product = 1;
        for _ in 0..n {
            let name = self.table()?;
            let t = self.s.tables[&name].clone();
            product *= t.rows.len().max(1);
            if product > 20_000 {
                if ts.len() < 2 {
                    return None;
                }
                break;
            }
            ts.push(name);
            tabs.push(t);
        }
        let n = ts.len();
        let outer = self.r.chance(350);
        let mut kinds = Vec::new();
        let mut on = Vec::new();
        for i in 1..n {
            let k = if outer { *self.r.pick(&[J::Left, J::Left, J::Right, J::Full, J::Inner]) } else { J::Inner };
            let some = if k == J::Inner && !outer { self.r.weighted(&[8, 50, 30, 12]) } else { 1 + self.r.usize(3) };
            let mut ps = Vec::new();
            for c in 0..some {
                // At least one that ties the new table to the others.
                let eq = c == 0 || self.r.chance(400);
                let plain = self.r.chance(800);
                let p = if eq { self.tie(&tabs[..=i], plain) } else { self.cross(&tabs[..=i]) };
                ps.extend(p);
            }
            if ps.is_empty() && outer {
                ps.push(P::Cmp(format!("{}.{}", ALIAS[i], tabs[i].cols[0].name), Cmp::Ne, L::N));
            }
            kinds.push(k);
            on.push(ps);
        }
        let mut wh = Vec::new();
        for _ in 0..self.r.weighted(&[35, 40, 20, 5]) {
            wh.extend(self.cross(&tabs));
        }
        let mut cols = Vec::new();
        for (i, t) in tabs.iter().enumerate() {
            for c in &t.cols {
                if self.r.chance(400) {
                    cols.push(format!("{}.{}", ALIAS[i], c.name));
                }
            }
        }
        if cols.is_empty() {
            cols.push(format!("x.{}", tabs[0].cols[0].name));
        }
        let order = if self.r.chance(300) { Some((self.r.pick(&cols).clone(), self.r.chance(400))) } else { None };
        let count = order.is_none() && self.r.chance(150);
        Some(St::JoinN { ts, kinds, on, wh, cols, order, count })
    }

    /// A comparison of a column of the last table with one of the others.
    fn tie(&mut self, tabs: &[std::sync::Arc<Table>], eq: bool) -> Option<P> {
        let last = tabs.len() - 1;
        let o = self.r.usize(last);
        let mut pairs = Vec::new();
        for a in &tabs[o].cols {
            for b in &tabs[last].cols {
                let num = |t: T| matches!(t, T::Int | T::Big | T::Dbl);
                if (a.t == b.t && a.t != T::Bool) || (num(a.t) && num(b.t) && self.r.chance(200)) {
                    pairs.push((format!("{}.{}", ALIAS[o], a.name), format!("{}.{}", ALIAS[last], b.name)));
                }
            }
        }
        if pairs.is_empty() {
            return None;
        }
        let (a, b) = self.r.pick(&pairs).clone();
        let op = if eq { Cmp::Eq } else { *self.r.pick(&[Cmp::Eq, Cmp::Lt, Cmp::Le, Cmp::Gt, Cmp::Ge, Cmp::Ne]) };
        Some(if self.r.chance(500) { P::Cols(a, op, b) } else { P::Cols(b, op, a) })
    }

    /// A condition on one or several of the tables.
    fn cross(&mut self, tabs: &[std::sync::Arc<Table>]) -> Option<P> {
        let i = self.r.usize(tabs.len());
        let single = |g: &mut Self, i: usize| {
            let p = g.pred(&tabs[i], 0);
            p.named(&|c| format!("{}.{c}", ALIAS[i]))
        };
        Some(match self.r.weighted(&[35, 15, 15, 15, 10, 10]) {
            0 => single(self, i),
            k => {
                // Columns of one type, from anywhere.
                let t = *self.r.pick(&[T::Int, T::Int, T::Big, T::Text, T::Dbl]);
                let mut all: Vec<(usize, usize, String)> = Vec::new();
                for (i, tab) in tabs.iter().enumerate() {
                    for (c, col) in tab.cols.iter().enumerate() {
                        if col.t == t {
                            all.push((i, c, format!("{}.{}", ALIAS[i], col.name)));
                        }
                    }
                }
                if all.len() < 2 {
                    return Some(single(self, i));
                }
                let (ia, ca, a) = self.r.pick(&all).clone();
                let (_, _, b) = self.r.pick(&all).clone();
                let (_, _, c) = self.r.pick(&all).clone();
                match k {
                    1 => P::Cols(a, *self.r.pick(&[Cmp::Eq, Cmp::Lt, Cmp::Ge, Cmp::Ne]), b),
                    2 => P::BetweenC(a, b, c),
                    3 => {
                        let l = if self.r.chance(500) { vec![self.near(&tabs[ia], ca)] } else { vec![] };
                        // A NULL is in a list of NULLs here; that is not the question.
                        let some = P::Not(Box::new(P::IsNull(a.clone())));
                        let p = P::InC(a, if self.r.chance(500) { vec![b, c] } else { vec![b] }, l);
                        P::And(Box::new(p), Box::new(some))
                    }
                    4 if matches!(t, T::Int | T::Big) => P::Sum(a, b, *self.r.pick(&[Cmp::Eq, Cmp::Lt, Cmp::Ge]), self.r.range(0, self.p.keys * 2)),
                    _ => {
                        let p = single(self, i);
                        let j = self.r.usize(tabs.len());
                        let q = if self.r.chance(500) { P::Cols(a, Cmp::Eq, b) } else { single(self, j) };
                        P::Or(Box::new(p), Box::new(q))
                    }
                }
            }
        })
    }

    /// A row that breaks no rule of types; it may break a constraint.
    fn row(&mut self, t: &Table, cols: &[usize]) -> Vec<L> {
        cols.iter()
            .map(|c| {
                let k = &t.cols[*c];
                if k.nn {
                    self.lit(k.t, false)
                } else {
                    self.lit(k.t, true)
                }
            })
            .collect()
    }

    pub fn dml(&mut self) -> Option<St> {
        let name = self.table()?;
        let t = self.s.tables[&name].clone();
        let mut w = self.p.dml;
        if t.rows.is_empty() {
            w = [1, 0, 0, 0];
        }
        Some(match self.r.weighted(&w) {
            0 => {
                let all: Vec<usize> = (0..t.cols.len()).collect();
                let (cols, idx) = if self.r.chance(500) {
                    (None, all)
                } else {
                    let idx: Vec<usize> =
                        all.into_iter().filter(|c| (t.cols[*c].nn && t.cols[*c].default.is_none()) || self.r.chance(750)).collect();
                    let mut idx = if idx.is_empty() { vec![0] } else { idx };
                    if idx.len() > 1 && self.r.chance(300) {
                        idx.reverse();
                    }
                    (Some(idx.iter().map(|c| t.cols[*c].name.clone()).collect()), idx)
                };
                let n = 1 + self.r.usize(self.p.bulk);
                let mut rows: Vec<Vec<L>> = Vec::new();
                let mut st = None;
                // Mostly rows that fit.
                for _ in 0..n {
                    let careful = self.r.chance(930);
                    for _ in 0..if careful { 12 } else { 1 } {
                        let mut r2 = rows.clone();
                        r2.push(self.row(&t, &idx));
                        let cand = St::Ins { t: name.clone(), cols: cols.clone(), rows: r2.clone() };
                        let (e, _, _) = self.s.run(&cand, &mut self.ids);
                        if !careful || !matches!(e, Expect::Fail(_)) {
                            rows = r2;
                            st = Some(cand);
                            break;
                        }
                    }
                }
                st?
            }
            1 => {
                let k = 1 + self.r.usize(2.min(t.cols.len()));
                let mut set: Vec<(String, SetX)> = Vec::new();
                for _ in 0..k {
                    let c = self.r.usize(t.cols.len());
                    let col = t.cols[c].clone();
                    if set.iter().any(|s| s.0 == col.name) {
                        continue;
                    }
                    let same: Vec<String> = t.cols.iter().filter(|x| x.t == col.t && x.name != col.name).map(|x| x.name.clone()).collect();
                    let x = match self.r.weighted(&[60, 25, 10]) {
                        1 if matches!(col.t, T::Int | T::Big) => SetX::Plus(col.name.clone(), self.r.range(1, 4)),
                        2 if !same.is_empty() => SetX::Col(self.r.pick(&same).clone()),
                        _ => SetX::Lit(self.lit(col.t, !col.nn)),
                    };
                    set.push((col.name, x));
                }
                St::Upd { t: name, set, p: self.pred(&t, 150) }
            }
            2 => {
                let all = if t.rows.len() < 4 { 100 } else { 25 };
                St::Del { t: name, p: self.pred(&t, all) }
            }
            _ => {
                let from = self.table()?;
                let f = self.s.tables[&from].clone();
                let mut cols = Vec::new();
                let mut src = Vec::new();
                for c in &t.cols {
                    let like: Vec<String> = f.cols.iter().filter(|x| x.t == c.t).map(|x| x.name.clone()).collect();
                    if !like.is_empty() {
                        cols.push(c.name.clone());
                        src.push(self.r.pick(&like).clone());
                    }
                }
                if cols.is_empty() || t.rows.len() + f.rows.len() > 400 {
                    return None;
                }
                St::InsSel { t: name, cols, from, src, p: self.pred(&f, 100) }
            }
        })
    }

    /// A statement that is expected to fail, often after it has done part of its work.
    pub fn failing(&mut self) -> Option<St> {
        let name = self.table()?;
        let t = self.s.tables[&name].clone();
        let idx: Vec<usize> = (0..t.cols.len()).collect();
        Some(match self.r.usize(7) {
            // The last row of several clashes with the first or with a row there is.
            0 | 1 => {
                let mut rows: Vec<Vec<L>> = (0..1 + self.r.usize(4)).map(|_| self.row(&t, &idx)).collect();
                let mut last = rows[0].clone();
                if let Some(r) = t.rows.values().next()
                    && self.r.chance(500)
                {
                    last = r
                        .iter()
                        .zip(&t.cols)
                        .map(|(v, c)| match v {
                            crate::engine::V::I(i) => L::I(*i),
                            crate::engine::V::B(b) => L::B(*b),
                            crate::engine::V::F(f) => L::Q((*f * 4.0) as i64),
                            crate::engine::V::S(s) => L::S(s.clone()),
                            _ => if c.nn { L::I(0) } else { L::N },
                        })
                        .collect();
                }
                rows.push(last);
                St::Ins { t: name, cols: None, rows }
            }
            // NULL where there must be none, at the end.
            2 => {
                let nn: Vec<usize> = idx.iter().copied().filter(|c| t.cols[*c].nn).collect();
                let mut rows: Vec<Vec<L>> = (0..1 + self.r.usize(3)).map(|_| self.row(&t, &idx)).collect();
                let mut last = self.row(&t, &idx);
                if let Some(c) = nn.first() {
                    last[*c] = L::N;
                } else {
                    last.pop();
                }
                rows.push(last);
                St::Ins { t: name, cols: None, rows }
            }
            // A value of another type.
            3 => {
                let mut rows: Vec<Vec<L>> = (0..1 + self.r.usize(3)).map(|_| self.row(&t, &idx)).collect();
                let mut last = self.row(&t, &idx);
                let c = self.r.usize(idx.len());
                last[c] = match t.cols[c].t {
                    T::Text => L::B(true),
                    T::Int => self.r.pick(&[L::S("word".into()), L::I(99_999_999_999)]).clone(),
                    _ => L::S("word".into()),
                };
                rows.push(last);
                St::Ins { t: name, cols: None, rows }
            }
            // All rows get one value.
            4 | 5 => {
                let keyed: Vec<usize> = t.uniq.iter().filter(|u| u.cols.len() == 1).filter_map(|u| t.col(&u.cols[0])).collect();
                let c = if keyed.is_empty() { self.r.usize(t.cols.len()) } else { *self.r.pick(&keyed) };
                let l = if t.cols[c].nn && self.r.chance(300) { L::N } else { self.near(&t, c) };
                St::Upd { t: name, set: vec![(t.cols[c].name.clone(), SetX::Lit(l))], p: self.pred(&t, 700) }
            }
            _ => match self.r.usize(4) {
                0 => St::Sel { t: name, cols: vec!["nope".into()], p: P::True, order: None, limit: None, distinct: false },
                1 => St::Del { t: "nothere".into(), p: P::True },
                2 => self.create(&name),
                _ => St::DropCol { t: name, c: "nope".into() },
            },
        })
    }

    pub fn query(&mut self) -> Option<St> {
        let name = self.table()?;
        let t = self.s.tables[&name].clone();
        let mut cols: Vec<String> = t.cols.iter().filter(|_| self.r.chance(700)).map(|c| c.name.clone()).collect();
        if cols.is_empty() {
            cols.push(t.cols[0].name.clone());
        }
        Some(match self.r.weighted(&[46, 12, 10, 4, 6, if self.p.styles { 26 } else { 8 }]) {
            1 => {
                let mut aggs = vec![(Agg::CountAll, String::new())];
                for _ in 0..self.r.usize(3) {
                    let c = t.cols[self.r.usize(t.cols.len())].clone();
                    let a = *self.r.pick(&[Agg::Min, Agg::Max, Agg::Sum]);
                    if a == Agg::Sum && !matches!(c.t, T::Int | T::Dbl) {
                        continue;
                    }
                    aggs.push((a, c.name));
                }
                let group = if self.r.chance(500) { Some(t.cols[self.r.usize(t.cols.len())].name.clone()) } else { None };
                St::Agg { t: name, group, aggs, p: self.pred(&t, 300) }
            }
            2 | 3 if self.p.tables > 1 || self.r.chance(300) => {
                let b = self.table()?;
                let tb = self.s.tables[&b].clone();
                let (ca, cb) = self.join_columns(&t, &tb)?;
                if t.rows.len() * tb.rows.len() > 20_000 {
                    return None;
                }
                let mut jc = Vec::new();
                for (s, tt) in [(false, &t), (true, &tb)] {
                    for c in &tt.cols {
                        if self.r.chance(500) {
                            jc.push((s, c.name.clone()));
                        }
                    }
                }
                jc.push((true, tb.cols[0].name.clone()));
                if self.r.chance(250) {
                    let c = self.table()?;
                    let tc = self.s.tables[&c].clone();
                    let (cb2, cc) = self.join_columns(&tb, &tc)?;
                    if t.rows.len() * tb.rows.len() * tc.rows.len() > 60_000 {
                        return None;
                    }
                    let cols = vec![(0, t.cols[0].name.clone()), (1, tb.cols[0].name.clone()), (2, tc.cols[tc.cols.len() - 1].name.clone())];
                    return Some(St::Join3 { a: name, b, c, ca, cb, cb2, cc, cols, pa: self.pred(&t, 500) });
                }
                let (pa, pb) = (self.pred(&t, 500), self.pred(&tb, 600));
                St::Join { a: name, b, ca, cb, cols: jc, pa, pb }
            }
            5 => self.join_n()?,
            4 => {
                let unique = t.uniq.iter().find(|u| u.cols.len() == 1 && t.cols[t.col(&u.cols[0]).unwrap()].nn).map(|u| u.cols[0].clone());
                match unique {
                    Some(u) => {
                        if !cols.contains(&u) {
                            cols.push(u.clone());
                        }
                        let limit = Some((self.r.usize(6), self.r.usize(4)));
                        St::Sel { t: name, cols, p: self.pred(&t, 400), order: Some((u, self.r.chance(500))), limit, distinct: false }
                    }
                    None => St::Sel { t: name, cols, p: self.pred(&t, 100), order: None, limit: None, distinct: true },
                }
            }
            _ => {
                let order = if self.r.chance(250) { Some((self.r.pick(&cols).clone(), self.r.chance(500))) } else { None };
                St::Sel { t: name, cols, p: self.pred(&t, 200), order, limit: None, distinct: self.r.chance(60) }
            }
        })
    }

    fn join_columns(&mut self, a: &Table, b: &Table) -> Option<(String, String)> {
        let mut pairs = Vec::new();
        for x in &a.cols {
            for y in &b.cols {
                if x.t == y.t && x.t != T::Bool {
                    pairs.push((x.name.clone(), y.name.clone()));
                }
            }
        }
        if pairs.is_empty() { None } else { Some(self.r.pick(&pairs).clone()) }
    }

    pub fn ddl(&mut self) -> Option<St> {
        let max = self.p.tables;
        if self.s.tables.len() < max && self.r.chance(500) {
            let n = format!("t{}", self.r.usize(max + 1));
            return Some(self.create(&n));
        }
        let name = self.table()?;
        let t = self.s.tables[&name].clone();
        let col = t.cols[self.r.usize(t.cols.len())].clone();
        Some(match self.r.weighted(&[12, 22, 16, 12, 8, 4, 8, 6, 10, 4]) {
            0 => St::DropT { t: if self.r.chance(900) { name } else { "t9".into() }, ie: self.r.chance(200) },
            1 => {
                self.fresh += 1;
                let cols = self.columns_of(&t.cols.clone());
                let n = if self.r.chance(900) { format!("i{}", self.fresh) } else { format!("i{}", self.r.usize(self.fresh as usize)) };
                St::Index { name: n, t: name, cols }
            }
            2 => {
                let mut c = self.fresh_col();
                if c.default.is_none() && self.r.chance(900) {
                    c.nn = false;
                }
                if self.r.chance(80) {
                    c.name = col.name;
                }
                St::AddCol { t: name, col: c }
            }
            3 if t.cols.len() > 1 => St::DropCol { t: name, c: col.name },
            3 => St::DropNN { t: name, c: col.name },
            4 => {
                let v = self.lit(col.t, false);
                St::SetDefault { t: name, c: col.name, v }
            }
            5 => St::DropDefault { t: name, c: col.name },
            6 => St::SetNN { t: name, c: col.name },
            7 => St::DropNN { t: name, c: col.name },
            8 => {
                let cols = self.columns_of(&t.cols.clone());
                if self.r.chance(300) { St::AddPk { t: name, cols } } else { St::AddUniq { t: name, cols } }
            }
            _ => {
                let n = format!("t{}", self.r.usize(max + 2));
                self.create(&n)
            }
        })
    }

    pub fn raw(&mut self) -> String {
        super::rawsql::text(self.r, &self.s)
    }

    pub fn commit(&mut self, st: &St) {
        self.s = self.s.clone().run(st, &mut self.ids).1;
    }
}

pub fn knobs(r: &mut Rng) -> Knobs {
    Knobs {
        page: *r.pick(&[4096usize, 4096, 4096, 8192, 16384, 32768, 65536]),
        cache: *r.pick(&[64usize, 100, 400, 2000]),
        pool: 1 + r.usize(3),
        min_keys: 3 + r.usize(3),
        sib: 1 + r.usize(3),
    }
}

/// The disk may fail the operation once: when the log is forced, or in a checkpoint. (No page is read or written
/// in the middle of a statement: the cache holds them all.)
pub fn faulty(rng: &mut Rng, op: Op) -> Op {
    if !matches!(op, Op::Q(..) | Op::Batch(..) | Op::Commit(..) | Op::Flush) || !rng.chance(150) {
        return op;
    }
    let f = IoFault { at: *rng.pick(&[0u64, 0, 1, 2, 3, 6]), op: "write".into(), kind: rng.pick(&["eio", "enospc"]).to_string(), count: 1 };
    Op::Faulty(f, Box::new(op))
}

pub fn generate(prop: &str, rng: &mut Rng, _i: u64, thorough: bool) -> Value {
    let p = profile(prop, rng, thorough);
    let failing = matches!(prop, "C03" | "C04" | "C07" | "C15" | "C16") && rng.chance(250);
    let ks = match prop {
        _ if failing => vec![Knobs { cache: 2000, ..knobs(rng) }],
        "C12" => vec![Knobs { cache: 3000, ..knobs(rng) }, knobs(rng), Knobs { cache: *rng.pick(&[30, 48, 64]), ..knobs(rng) }],
        _ if rng.chance(300) => vec![Knobs { cache: 2000, ..knobs(rng) }],
        _ => vec![Knobs { cache: 2000, min_keys: 3 + rng.usize(3), sib: 1 + rng.usize(3), ..Knobs::default() }],
    };
    let ops = if prop == "C13" && rng.chance(300) { cycles(rng, &p, thorough) } else { ops(rng, &p, prop) };
    let ops = if failing { ops.into_iter().map(|o| faulty(rng, o)).collect() } else { ops };
    let sched = rng.next();
    json!({"knobs": ks, "ops": ops, "sched": {"seed": sched, "preempt": 0, "script": null, "max_steps": 80_000_000u64}})
}

pub fn ops(rng: &mut Rng, p: &Prof, _prop: &str) -> Vec<Op> {
    ops_from(rng, p, (State::default(), Ids { row: 0, table: 0 })).0
}

/// The same work over and over, with VACUUM in between.
pub fn cycles(rng: &mut Rng, p: &Prof, thorough: bool) -> Vec<Op> {
    let mut p = p.clone();
    p.bulk = *rng.pick(&[3, 8, 15]);
    p.keys = 60;
    p.tables = 1 + rng.usize(2);
    p.sessions = 1;
    // These would double a table every time.
    p.dml[3] = 0;
    // All versions of a row go into one record of the log.
    p.long = p.long.min(300);
    let times = (6 + rng.usize(10)) * if thorough { 3 } else { 1 };
    let mut g = Gen::new(rng, p.clone());
    let mut ops = Vec::new();
    for i in 0..p.tables {
        let st = g.create(&format!("t{i}"));
        g.commit(&st);
        ops.push(Op::Q(0, st, 0));
        for _ in 0..2 {
            let keep = g.p.dml;
            g.p.dml = [1, 0, 0, 0];
            if let Some(st) = g.dml() {
                g.commit(&st);
                ops.push(Op::Q(0, st, 0));
            }
            g.p.dml = keep;
        }
    }
    let mut body = Vec::new();
    for _ in 0..1 + g.r.usize(5) {
        match g.r.weighted(&[40, 20, 10, 10, 6, 6, 8]) {
            0 => {
                // Every row changes, in indexed columns as well.
                let Some(name) = g.table() else { continue };
                let t = g.s.tables[&name].clone();
                let c = g.r.usize(t.cols.len());
                let set = match t.cols[c].t {
                    T::Int | T::Big => SetX::Plus(t.cols[c].name.clone(), *g.r.pick(&[1, 2, 3])),
                    ty => SetX::Lit(g.lit(ty, false)),
                };
                let pr = g.pred(&t, 700);
                body.push(Op::Q(0, St::Upd { t: name, set: vec![(t.cols[c].name.clone(), set)], p: pr }, 0));
            }
            1 => body.extend(g.dml().map(|st| Op::Q(0, st, 0))),
            2 => {
                body.push(Op::Begin(1));
                for _ in 0..1 + g.r.usize(3) {
                    body.extend(g.dml().map(|st| Op::Q(1, st, 0)));
                }
                body.push(if g.r.chance(500) { Op::DropS(1) } else { Op::Commit(1) });
            }
            3 => {
                // A table that comes and goes.
                let st = g.create("t7");
                body.push(Op::Q(0, st.clone(), 0));
                let keep = g.s.clone();
                g.s = State::default();
                g.commit(&st);
                let keep2 = g.p.dml;
                g.p.dml = [1, 0, 0, 0];
                body.extend(g.dml().map(|st| Op::Q(0, st, 0)));
                g.p.dml = keep2;
                g.s = keep;
                body.push(Op::Q(0, St::DropT { t: "t7".into(), ie: false }, 0));
            }
            4 => body.extend(g.failing().map(|st| Op::Q(0, st, 0))),
            5 => {
                let Some(name) = g.table() else { continue };
                let t = g.s.tables[&name].clone();
                let col = t.cols[g.r.usize(t.cols.len())].clone();
                let v = g.lit(col.t, false);
                body.push(Op::Q(0, St::SetDefault { t: name, c: col.name, v }, 0));
            }
            _ => {
                // Rows that leave and come back.
                let Some(name) = g.table() else { continue };
                let t = g.s.tables[&name].clone();
                body.push(Op::Q(0, St::Del { t: name.clone(), p: P::True }, 0));
                let rows: Vec<Vec<L>> = t
                    .rows
                    .values()
                    .map(|r| r.iter().map(|v| match v {
                        V::Null => L::N,
                        V::I(i) => L::I(*i),
                        V::F(f) => L::Q((f * 4.0) as i64),
                        V::B(b) => L::B(*b),
                        V::S(s) => L::S(s.clone()),
                        V::U(u) => L::I(*u as i64),
                    }).collect())
                    .collect();
                if !rows.is_empty() {
                    body.push(Op::Q(0, St::Ins { t: name, cols: None, rows }, 0));
                }
            }
        }
    }
    for i in 0..times {
        ops.extend(body.iter().cloned());
        if g.r.chance(60) {
            ops.push(Op::Reopen(Knobs { cache: 2000, ..knobs(g.r) }));
        }
        if g.r.chance(700) || i % 3 == 0 || i + 1 == times {
            ops.push(Op::Space);
        }
        if g.r.chance(200) {
            ops.push(Op::Check);
        }
    }
    ops.push(Op::Check);
    ops
}

/// Operations for a database that may already hold something.
pub fn ops_from(rng: &mut Rng, p: &Prof, (s, ids): (State, Ids)) -> (Vec<Op>, (State, Ids)) {
    let mut g = Gen::new(rng, p.clone());
    g.fresh = 1000 * ids.table as u32;
    (g.s, g.ids) = (s, ids);
    let mut ops: Vec<Op> = Vec::new();
    // Tables to begin with.
    let some = if g.s.tables.is_empty() { p.tables } else { 0 };
    for i in 0..some {
        let st = g.create(&format!("t{i}"));
        g.commit(&st);
        ops.push(Op::Q(0, st, 0));
        if g.r.chance(700)
            && let Some(st) = {
                let keep = g.p.dml;
                g.p.dml = [1, 0, 0, 0];
                let s = g.dml();
                g.p.dml = keep;
                s
            }
        {
            g.commit(&st);
            ops.push(Op::Q(0, st, 0));
        }
    }
    // Which sessions are open, and whether each is meant to commit.
    let mut open: Vec<Option<bool>> = vec![None; p.sessions + 1];
    let mut seen: Vec<St> = Vec::new();
    while ops.len() < p.ops {
        let kind = g.r.weighted(&p.w);
        let who = |g: &mut Gen, open: &[Option<bool>]| -> usize {
            let o: Vec<usize> = (1..open.len()).filter(|k| open[*k].is_some()).collect();
            if o.is_empty() || g.r.chance(300) { 0 } else { *g.r.pick(&o) }
        };
        let st = match kind {
            0 => g.dml(),
            1 => {
                // Reading again what was read before is how a moving snapshot shows.
                if !seen.is_empty() && g.r.chance(300) {
                    Some(g.r.pick(&seen).clone())
                } else {
                    let q = g.query();
                    if let Some(q) = &q {
                        seen.push(q.clone());
                        if seen.len() > 6 {
                            seen.remove(0);
                        }
                    }
                    q
                }
            }
            2 => g.ddl(),
            11 => g.failing(),
            12 => Some(St::Raw(g.raw())),
            _ => None,
        };
        if let Some(st) = st {
            let s = who(&mut g, &open);
            let keeps = s == 0 || open[s] == Some(true);
            if st.is_query() && g.p.styles {
                // The same question in several ways.
                let n = 2 + g.r.usize(3);
                for k in 0..n {
                    let v = if k == 0 { 0 } else { g.r.usize(64) as u8 };
                    ops.push(Op::Q(s, st.clone(), v));
                }
                if g.r.chance(150) {
                    ops.push(Op::Analyze);
                    ops.push(Op::Q(s, st.clone(), 0));
                }
            } else {
                let v = if g.r.chance(200) { g.r.usize(64) as u8 } else { 0 };
                ops.push(Op::Q(s, st.clone(), v));
            }
            if keeps {
                g.commit(&st);
            }
            continue;
        }
        match kind {
            3 => {
                if let Some(s) = (1..open.len()).find(|k| open[*k].is_none()) {
                    open[s] = Some(g.r.chance(p.commit));
                    ops.push(Op::Begin(s));
                }
            }
            4 => {
                let o: Vec<usize> = (1..open.len()).filter(|k| open[*k].is_some()).collect();
                if !o.is_empty() {
                    let s = *g.r.pick(&o);
                    let c = open[s].take().unwrap();
                    ops.push(if c {
                        Op::Commit(s)
                    } else if g.r.chance(500) {
                        Op::Rollback(s)
                    } else {
                        Op::DropS(s)
                    });
                    if g.r.chance(250) {
                        ops.push(Op::Check);
                    }
                }
            }
            5 => {
                let mut b = Vec::new();
                let fail = g.r.chance(400);
                let save = g.s.clone();
                for _ in 0..1 + g.r.usize(5) {
                    let st = match g.r.usize(10) {
                        0 => g.query(),
                        1 if g.p.w[2] > 0 => g.ddl(),
                        _ => g.dml(),
                    };
                    if let Some(st) = st {
                        g.commit(&st);
                        b.push(st);
                    }
                }
                if fail {
                    if let Some(st) = g.failing() {
                        b.push(st);
                    }
                    g.s = save;
                }
                ops.push(Op::Batch(b));
                if fail && g.r.chance(300) {
                    ops.push(Op::Check);
                }
            }
            6 => ops.push(Op::Flush),
            7 => {
                ops.push(Op::Vacuum);
                open.iter_mut().for_each(|o| *o = None);
                // Ends those it has aborted.
                for s in 1..open.len() {
                    if g.r.chance(700) {
                        ops.push(if g.r.chance(500) { Op::DropS(s) } else { Op::Commit(s) });
                    } else {
                        open[s] = Some(true);
                    }
                }
                if g.r.chance(500) {
                    ops.push(Op::Check);
                }
            }
            8 => ops.push(Op::Analyze),
            9 => {
                open.iter_mut().for_each(|o| *o = None);
                let k = knobs(g.r);
                let small = p.small && g.r.chance(400);
                ops.push(Op::Reopen(Knobs { cache: if small { *g.r.pick(&[40, 64, 100, 400]) } else { 2000 }, ..k }));
            }
            10 => ops.push(Op::Check),
            _ => {}
        }
    }
    (ops, (g.s, g.ids))
}
