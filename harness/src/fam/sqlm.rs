//! Statements as data, and a small reference model of a multi-version SQL database.
use crate::engine::{Res, V};
use crate::fam::vals::long_text;
use serde::{Deserialize, Serialize};
use std::{
    cmp::Ordering,
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum T {
    Int,
    Big,
    Text,
    Bool,
    Dbl,
}

impl T {
    fn kind(self) -> u8 {
        match self {
            T::Bool => 1,
            T::Text => 2,
            _ => 0,
        }
    }
    pub fn sql(self) -> &'static str {
        match self {
            T::Int => "INT",
            T::Big => "BIGINT",
            T::Text => "TEXT",
            T::Bool => "BOOLEAN",
            T::Dbl => "DOUBLE",
        }
    }
}

/// A literal.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum L {
    N,
    I(i64),
    /// Quarters.
    Q(i64),
    B(bool),
    S(String),
    /// Generated text.
    G(u64, usize),
}

impl L {
    pub fn v(&self) -> V {
        match self {
            L::N => V::Null,
            L::I(i) => V::I(*i),
            L::Q(q) => V::F(*q as f64 / 4.0),
            L::B(b) => V::B(*b),
            L::S(s) => V::S(s.clone()),
            L::G(s, n) => V::S(long_text("", *s, *n)),
        }
    }
    pub fn sql(&self) -> String {
        match self.v() {
            V::Null => "NULL".into(),
            V::I(i) => i.to_string(),
            V::F(f) => format!("{f:.2}"),
            V::B(b) => if b { "TRUE" } else { "FALSE" }.into(),
            V::S(s) => format!("'{}'", s.replace('\'', "''")),
            V::U(u) => u.to_string(),
        }
    }
    /// The value as stored in a column of the type, if it fits there.
    fn kind(&self) -> Option<u8> {
        match self {
            L::N => None,
            L::I(_) | L::Q(_) => Some(0),
            L::B(_) => Some(1),
            L::S(_) | L::G(..) => Some(2),
        }
    }
    pub fn fit(&self, t: T) -> Option<V> {
        match (self, t) {
            (L::N, _) => Some(V::Null),
            (L::I(i), T::Int) => i32::try_from(*i).ok().map(|_| V::I(*i)),
            (L::I(i), T::Big) => Some(V::I(*i)),
            (L::I(i), T::Dbl) => Some(V::F(*i as f64)),
            (L::Q(_), T::Dbl) => Some(self.v()),
            (L::B(_), T::Bool) => Some(self.v()),
            (L::S(_) | L::G(..), T::Text) => Some(self.v()),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cmp {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

impl Cmp {
    fn sql(self) -> &'static str {
        match self {
            Cmp::Eq => "=",
            Cmp::Ne => "<>",
            Cmp::Lt => "<",
            Cmp::Le => "<=",
            Cmp::Gt => ">",
            Cmp::Ge => ">=",
        }
    }
    fn flip(self) -> Cmp {
        match self {
            Cmp::Lt => Cmp::Gt,
            Cmp::Le => Cmp::Ge,
            Cmp::Gt => Cmp::Lt,
            Cmp::Ge => Cmp::Le,
            c => c,
        }
    }
    fn holds(self, o: Ordering) -> bool {
        match self {
            Cmp::Eq => o == Ordering::Equal,
            Cmp::Ne => o != Ordering::Equal,
            Cmp::Lt => o == Ordering::Less,
            Cmp::Le => o != Ordering::Greater,
            Cmp::Gt => o == Ordering::Greater,
            Cmp::Ge => o != Ordering::Less,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum P {
    True,
    Cmp(String, Cmp, L),
    /// Two columns of one row.
    Cols(String, Cmp, String),
    /// Integer column plus a constant against a constant.
    Plus(String, i64, Cmp, i64),
    Between(String, L, L),
    In(String, Vec<L>),
    /// Between two columns of one row.
    BetweenC(String, String, String),
    /// One of some columns and constants.
    InC(String, Vec<String>, Vec<L>),
    /// The sum of two integer columns and a constant.
    Sum(String, String, Cmp, i64),
    IsNull(String),
    Not(Box<P>),
    And(Box<P>, Box<P>),
    Or(Box<P>, Box<P>),
}

/// How a query is written: any writing has the same meaning.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Style {
    /// Constants on the left.
    pub flip: bool,
    /// Operands of AND and OR the other way around.
    pub commute: bool,
    /// Comparisons of integer columns in a form no index serves.
    pub opaque: bool,
    /// Join operands the other way around.
    pub swap: bool,
    /// A redundant conjunct.
    pub extra: bool,
    /// From a derived table.
    pub derived: bool,
}

/// How two inputs are joined.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum J {
    Inner,
    Left,
    Right,
    Full,
}

pub const ALIAS: [&str; 4] = ["x", "y", "z", "w"];

/// The table of a qualified column, and its name there.
pub fn split_q(c: &str) -> (usize, &str) {
    let (a, n) = c.split_once('.').unwrap_or(("x", c));
    (ALIAS.iter().position(|x| *x == a).unwrap_or(0), n)
}

pub fn vcmp(a: &V, b: &V) -> Option<Ordering> {
    match (a, b) {
        (V::Null, _) | (_, V::Null) => None,
        (V::I(x), V::I(y)) => Some(x.cmp(y)),
        (V::F(x), V::F(y)) => x.partial_cmp(y),
        (V::I(x), V::F(y)) => (*x as f64).partial_cmp(y),
        (V::F(x), V::I(y)) => x.partial_cmp(&(*y as f64)),
        (V::B(x), V::B(y)) => Some(x.cmp(y)),
        (V::S(x), V::S(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        _ => None,
    }
}

impl P {
    pub fn eval(&self, get: &dyn Fn(&str) -> V) -> Option<bool> {
        match self {
            P::True => Some(true),
            P::Cmp(c, op, l) => vcmp(&get(c), &l.v()).map(|o| op.holds(o)),
            P::Cols(a, op, b) => vcmp(&get(a), &get(b)).map(|o| op.holds(o)),
            P::Plus(c, k, op, n) => match get(c) {
                V::I(i) => Some(op.holds((i + k).cmp(n))),
                _ => None,
            },
            P::Between(c, a, b) => {
                let v = get(c);
                and(vcmp(&v, &a.v()).map(|o| o != Ordering::Less), vcmp(&v, &b.v()).map(|o| o != Ordering::Greater))
            }
            P::In(c, l) => {
                let v = get(c);
                l.iter().fold(Some(false), |acc, x| or(acc, vcmp(&v, &x.v()).map(|o| o == Ordering::Equal)))
            }
            P::BetweenC(c, a, b) => {
                let v = get(c);
                and(vcmp(&v, &get(a)).map(|o| o != Ordering::Less), vcmp(&v, &get(b)).map(|o| o != Ordering::Greater))
            }
            P::InC(c, cs, l) => {
                let v = get(c);
                let all = cs.iter().map(|c| get(c)).chain(l.iter().map(|l| l.v()));
                all.fold(Some(false), |acc, x| or(acc, vcmp(&v, &x).map(|o| o == Ordering::Equal)))
            }
            P::Sum(a, b, op, n) => match (get(a), get(b)) {
                (V::I(x), V::I(y)) => Some(op.holds((x + y).cmp(n))),
                _ => None,
            },
            P::IsNull(c) => Some(get(c) == V::Null),
            P::Not(p) => p.eval(get).map(|b| !b),
            P::And(a, b) => and(a.eval(get), b.eval(get)),
            P::Or(a, b) => or(a.eval(get), b.eval(get)),
        }
    }
    pub fn sql(&self, q: &str, st: Style) -> String {
        match self {
            P::True => "1 = 1".into(),
            P::Cmp(c, op, l) => {
                let int = matches!(l, L::I(_));
                let col = if st.opaque && int { format!("{q}{c} + 0") } else { format!("{q}{c}") };
                if st.flip { format!("{} {} {col}", l.sql(), op.flip().sql()) } else { format!("{col} {} {}", op.sql(), l.sql()) }
            }
            P::Cols(a, op, b) => {
                if st.flip { format!("{q}{b} {} {q}{a}", op.flip().sql()) } else { format!("{q}{a} {} {q}{b}", op.sql()) }
            }
            P::Plus(c, k, op, n) => format!("{q}{c} + {k} {} {n}", op.sql()),
            P::Between(c, a, b) => {
                if st.commute {
                    format!("({q}{c} >= {} AND {q}{c} <= {})", a.sql(), b.sql())
                } else {
                    format!("{q}{c} BETWEEN {} AND {}", a.sql(), b.sql())
                }
            }
            P::In(c, l) => {
                if st.commute {
                    format!("({})", l.iter().map(|x| format!("{q}{c} = {}", x.sql())).collect::<Vec<_>>().join(" OR "))
                } else {
                    format!("{q}{c} IN ({})", l.iter().map(|x| x.sql()).collect::<Vec<_>>().join(", "))
                }
            }
            P::BetweenC(c, a, b) => {
                if st.commute {
                    format!("({q}{c} >= {q}{a} AND {q}{c} <= {q}{b})")
                } else {
                    format!("{q}{c} BETWEEN {q}{a} AND {q}{b}")
                }
            }
            P::InC(c, cs, l) => {
                let all = cs.iter().map(|c| format!("{q}{c}")).chain(l.iter().map(|l| l.sql()));
                if st.commute {
                    format!("({})", all.map(|x| format!("{q}{c} = {x}")).collect::<Vec<_>>().join(" OR "))
                } else {
                    format!("{q}{c} IN ({})", all.collect::<Vec<_>>().join(", "))
                }
            }
            P::Sum(a, b, op, n) => {
                let (a, b) = if st.commute { (b, a) } else { (a, b) };
                if st.flip { format!("{n} {} {q}{a} + {q}{b}", op.flip().sql()) } else { format!("{q}{a} + {q}{b} {} {n}", op.sql()) }
            }
            P::IsNull(c) => format!("{q}{c} IS NULL"),
            P::Not(p) => format!("NOT ({})", p.sql(q, st)),
            P::And(a, b) | P::Or(a, b) => {
                let w = if matches!(self, P::And(..)) { "AND" } else { "OR" };
                let (x, y) = if st.commute { (b, a) } else { (a, b) };
                format!("({} {w} {})", x.sql(q, st), y.sql(q, st))
            }
        }
    }
    /// Whether it compares only what can be compared.
    fn typed(&self, t: &Table) -> bool {
        self.typed_by(&|c| t.col(c).map(|c| t.cols[c].t))
    }
    fn typed_by(&self, ty: &dyn Fn(&str) -> Option<T>) -> bool {
        let kind = |c: &str| ty(c).map(|t| t.kind());
        let lit = |c: &str, l: &L| kind(c).is_none_or(|c| l.kind().is_none_or(|k| k == c));
        let same = |a: &str, b: &str| match (kind(a), kind(b)) {
            (Some(a), Some(b)) => a == b,
            _ => true,
        };
        match self {
            P::True | P::IsNull(_) => true,
            P::Cmp(c, _, l) => lit(c, l),
            P::Plus(c, ..) => lit(c, &L::I(0)),
            P::Between(c, a, b) => lit(c, a) && lit(c, b),
            P::In(c, l) => l.iter().all(|l| lit(c, l)),
            P::Cols(a, _, b) => same(a, b),
            P::BetweenC(c, a, b) => same(c, a) && same(c, b),
            P::InC(c, cs, l) => cs.iter().all(|o| same(c, o)) && l.iter().all(|l| lit(c, l)),
            P::Sum(a, b, ..) => [a, b].iter().all(|c| ty(c).is_none_or(|t| matches!(t, T::Int | T::Big))),
            P::Not(p) => p.typed_by(ty),
            P::And(a, b) | P::Or(a, b) => a.typed_by(ty) && b.typed_by(ty),
        }
    }
    /// The same of other columns.
    pub fn named(&self, f: &dyn Fn(&str) -> String) -> P {
        let bx = |p: &P| Box::new(p.named(f));
        match self {
            P::True => P::True,
            P::Cmp(c, o, l) => P::Cmp(f(c), *o, l.clone()),
            P::Cols(a, o, b) => P::Cols(f(a), *o, f(b)),
            P::Plus(c, k, o, n) => P::Plus(f(c), *k, *o, *n),
            P::Between(c, a, b) => P::Between(f(c), a.clone(), b.clone()),
            P::In(c, l) => P::In(f(c), l.clone()),
            P::BetweenC(c, a, b) => P::BetweenC(f(c), f(a), f(b)),
            P::InC(c, cs, l) => P::InC(f(c), cs.iter().map(|c| f(c)).collect(), l.clone()),
            P::Sum(a, b, o, n) => P::Sum(f(a), f(b), *o, *n),
            P::IsNull(c) => P::IsNull(f(c)),
            P::Not(p) => P::Not(bx(p)),
            P::And(a, b) => P::And(bx(a), bx(b)),
            P::Or(a, b) => P::Or(bx(a), bx(b)),
        }
    }
    pub fn columns(&self, out: &mut Vec<String>) {
        match self {
            P::True => {}
            P::Cmp(c, ..) | P::Plus(c, ..) | P::Between(c, ..) | P::In(c, _) | P::IsNull(c) => out.push(c.clone()),
            P::Cols(a, _, b) | P::Sum(a, b, ..) => {
                out.push(a.clone());
                out.push(b.clone());
            }
            P::BetweenC(c, a, b) => out.extend([c.clone(), a.clone(), b.clone()]),
            P::InC(c, cs, _) => {
                out.push(c.clone());
                out.extend(cs.iter().cloned());
            }
            P::Not(p) => p.columns(out),
            P::And(a, b) | P::Or(a, b) => {
                a.columns(out);
                b.columns(out);
            }
        }
    }
}

fn and(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
fn or(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(true), _) | (_, Some(true)) => Some(true),
        (Some(false), Some(false)) => Some(false),
        _ => None,
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Col {
    pub name: String,
    pub t: T,
    pub nn: bool,
    pub default: Option<L>,
}

impl Col {
    fn sql(&self) -> String {
        let mut s = format!("{} {}", self.name, self.t.sql());
        if self.nn {
            s.push_str(" NOT NULL");
        }
        if let Some(d) = &self.default {
            s.push_str(&format!(" DEFAULT {}", d.sql()));
        }
        s
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SetX {
    Lit(L),
    /// column + n
    Plus(String, i64),
    Col(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Agg {
    CountAll,
    Count,
    Sum,
    Min,
    Max,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum St {
    Create { t: String, cols: Vec<Col>, pk: Vec<String>, uniq: Vec<Vec<String>>, ine: bool },
    DropT { t: String, ie: bool },
    Index { name: String, t: String, cols: Vec<String> },
    AddCol { t: String, col: Col },
    DropCol { t: String, c: String },
    SetDefault { t: String, c: String, v: L },
    DropDefault { t: String, c: String },
    SetNN { t: String, c: String },
    DropNN { t: String, c: String },
    AddUniq { t: String, cols: Vec<String> },
    AddPk { t: String, cols: Vec<String> },
    Ins { t: String, cols: Option<Vec<String>>, rows: Vec<Vec<L>> },
    InsSel { t: String, cols: Vec<String>, from: String, src: Vec<String>, p: P },
    Upd { t: String, set: Vec<(String, SetX)>, p: P },
    Del { t: String, p: P },
    Sel { t: String, cols: Vec<String>, p: P, order: Option<(String, bool)>, limit: Option<(usize, usize)>, distinct: bool },
    Agg { t: String, group: Option<String>, aggs: Vec<(Agg, String)>, p: P },
    /// a JOIN b ON a.ca = b.cb WHERE pa AND pb
    Join { a: String, b: String, ca: String, cb: String, cols: Vec<(bool, String)>, pa: P, pb: P },
    /// a JOIN b ON .. JOIN c ON b.cb2 = c.cc
    Join3 { a: String, b: String, c: String, ca: String, cb: String, cb2: String, cc: String, cols: Vec<(u8, String)>, pa: P },
    /// Several tables, joined from left to right. Columns are qualified by [ALIAS]. With `count`,
    /// the number of rows by the first of the columns.
    JoinN { ts: Vec<String>, kinds: Vec<J>, on: Vec<Vec<P>>, wh: Vec<P>, cols: Vec<String>, order: Option<(String, bool)>, count: bool },
    /// Any text; nothing is expected of it but an answer, and that it changes nothing.
    Raw(String),
}

fn join(v: &[String]) -> String {
    v.join(", ")
}

impl St {
    pub fn sql(&self, st: Style) -> String {
        let wh = |p: &P| -> String {
            match p {
                P::True if st.extra => " WHERE 1 = 1".into(),
                P::True => String::new(),
                p if st.extra => format!(" WHERE ({}) AND 1 = 1", p.sql("", st)),
                p => format!(" WHERE {}", p.sql("", st)),
            }
        };
        match self {
            St::Create { t, cols, pk, uniq, ine } => {
                let mut parts: Vec<String> = cols.iter().map(|c| c.sql()).collect();
                if !pk.is_empty() {
                    parts.push(format!("PRIMARY KEY ({})", join(pk)));
                }
                for u in uniq {
                    parts.push(format!("UNIQUE ({})", join(u)));
                }
                format!("CREATE TABLE {}{t} ({})", if *ine { "IF NOT EXISTS " } else { "" }, parts.join(", "))
            }
            St::DropT { t, ie } => format!("DROP TABLE {}{t}", if *ie { "IF EXISTS " } else { "" }),
            St::Index { name, t, cols } => format!("CREATE UNIQUE INDEX {name} ON {t} ({})", join(cols)),
            St::AddCol { t, col } => format!("ALTER TABLE {t} ADD COLUMN {}", col.sql()),
            St::DropCol { t, c } => format!("ALTER TABLE {t} DROP COLUMN {c}"),
            St::SetDefault { t, c, v } => format!("ALTER TABLE {t} ALTER COLUMN {c} SET DEFAULT {}", v.sql()),
            St::DropDefault { t, c } => format!("ALTER TABLE {t} ALTER COLUMN {c} DROP DEFAULT"),
            St::SetNN { t, c } => format!("ALTER TABLE {t} ALTER COLUMN {c} SET NOT NULL"),
            St::DropNN { t, c } => format!("ALTER TABLE {t} ALTER COLUMN {c} DROP NOT NULL"),
            St::AddPk { t, cols } => format!("ALTER TABLE {t} ADD CONSTRAINT PRIMARY KEY ({})", join(cols)),
            St::AddUniq { t, cols } => format!("ALTER TABLE {t} ADD CONSTRAINT UNIQUE ({})", join(cols)),
            St::Ins { t, cols, rows } => {
                let c = cols.as_ref().map(|c| format!(" ({})", join(c))).unwrap_or_default();
                let r: Vec<String> =
                    rows.iter().map(|r| format!("({})", r.iter().map(|l| l.sql()).collect::<Vec<_>>().join(", "))).collect();
                format!("INSERT INTO {t}{c} VALUES {}", r.join(", "))
            }
            St::InsSel { t, cols, from, src, p } => {
                format!("INSERT INTO {t} ({}) SELECT {} FROM {from}{}", join(cols), join(src), wh(p))
            }
            St::Upd { t, set, p } => {
                let s: Vec<String> = set
                    .iter()
                    .map(|(c, x)| match x {
                        SetX::Lit(l) => format!("{c} = {}", l.sql()),
                        SetX::Plus(o, n) => format!("{c} = {o} + {n}"),
                        SetX::Col(o) => format!("{c} = {o}"),
                    })
                    .collect();
                format!("UPDATE {t} SET {}{}", s.join(", "), wh(p))
            }
            St::Del { t, p } => format!("DELETE FROM {t}{}", wh(p)),
            St::Sel { t, cols, p, order, limit, distinct } => {
                let d = if *distinct { "DISTINCT " } else { "" };
                let mut s = if st.derived {
                    // The condition around or within.
                    let mut need: Vec<String> = cols.clone();
                    p.columns(&mut need);
                    need.extend(order.iter().map(|o| o.0.clone()));
                    need.sort();
                    need.dedup();
                    if st.swap {
                        need.reverse();
                    }
                    if st.extra {
                        format!("SELECT {d}{} FROM (SELECT {} FROM {t}{}) AS q", join(cols), join(&need), wh(p))
                    } else {
                        format!("SELECT {d}{} FROM (SELECT {} FROM {t}) AS q{}", join(cols), join(&need), wh(p))
                    }
                } else {
                    format!("SELECT {d}{} FROM {t}{}", join(cols), wh(p))
                };
                if let Some((c, desc)) = order {
                    s.push_str(&format!(" ORDER BY {c}{}", if *desc { " DESC" } else { "" }));
                }
                if let Some((n, o)) = limit {
                    s.push_str(&format!(" LIMIT {n}"));
                    if *o > 0 {
                        s.push_str(&format!(" OFFSET {o}"));
                    }
                }
                s
            }
            St::Agg { t, group, aggs, p } => {
                let mut parts: Vec<String> = group.iter().cloned().collect();
                for (a, c) in aggs {
                    parts.push(match a {
                        Agg::CountAll => "COUNT(*)".into(),
                        Agg::Count => format!("COUNT({c})"),
                        Agg::Sum => format!("SUM({c})"),
                        Agg::Min => format!("MIN({c})"),
                        Agg::Max => format!("MAX({c})"),
                    });
                }
                let g = group.as_ref().map(|g| format!(" GROUP BY {g}")).unwrap_or_default();
                format!("SELECT {} FROM {t}{}{g}", parts.join(", "), wh(p))
            }
            St::Join { a, b, ca, cb, cols, pa, pb } => {
                let c: Vec<String> = cols.iter().map(|(second, c)| format!("{}.{c}", if *second { "y" } else { "x" })).collect();
                let from = if st.swap {
                    format!("{b} AS y JOIN {a} AS x ON y.{cb} = x.{ca}")
                } else {
                    format!("{a} AS x JOIN {b} AS y ON x.{ca} = y.{cb}")
                };
                let mut conj = Vec::new();
                for (p, q) in [(pa, "x."), (pb, "y.")] {
                    if !matches!(p, P::True) {
                        conj.push(p.sql(q, st));
                    }
                }
                if st.commute {
                    conj.reverse();
                }
                let w = if conj.is_empty() { String::new() } else { format!(" WHERE {}", conj.join(" AND ")) };
                format!("SELECT {} FROM {from}{w}", c.join(", "))
            }
            St::Join3 { a, b, c, ca, cb, cb2, cc, cols, pa } => {
                let l: Vec<String> = cols.iter().map(|(w, c)| format!("{}.{c}", ["x", "y", "z"][*w as usize % 3])).collect();
                let from = if st.swap {
                    format!("{c} AS z JOIN {b} AS y ON z.{cc} = y.{cb2} JOIN {a} AS x ON y.{cb} = x.{ca}")
                } else {
                    format!("{a} AS x JOIN {b} AS y ON x.{ca} = y.{cb} JOIN {c} AS z ON y.{cb2} = z.{cc}")
                };
                let w = if matches!(pa, P::True) { String::new() } else { format!(" WHERE {}", pa.sql("x.", st)) };
                format!("SELECT {} FROM {from}{w}", l.join(", "))
            }
            St::JoinN { ts, kinds, on, wh, cols, order, count } => {
                let all = |ps: &[P]| -> String {
                    let mut v: Vec<String> = ps.iter().map(|p| p.sql("", st)).collect();
                    if st.commute {
                        v.reverse();
                    }
                    v.join(" AND ")
                };
                let name = |i: usize| format!("{} AS {}", ts[i], ALIAS[i]);
                let mut from;
                let mut rest: Vec<P> = Vec::new();
                if kinds.iter().all(|k| *k == J::Inner) {
                    // Any order of the tables, and any place for a condition from where its columns are known.
                    let mut perm: Vec<usize> = (0..ts.len()).collect();
                    if st.swap {
                        perm.reverse();
                        if st.flip {
                            perm.rotate_left(1);
                        }
                    }
                    let mut on: Vec<P> = on.iter().flatten().cloned().collect();
                    let mut wh = wh.clone();
                    if st.extra {
                        on.append(&mut wh);
                    }
                    if st.commute && !st.extra {
                        wh.append(&mut on);
                    }
                    from = name(perm[0]);
                    for i in 1..perm.len() {
                        let ready = |p: &P| {
                            let mut c = Vec::new();
                            p.columns(&mut c);
                            c.iter().all(|c| perm[..=i].contains(&split_q(c).0))
                        };
                        let (now, later): (Vec<P>, Vec<P>) = on.into_iter().partition(ready);
                        on = later;
                        if now.is_empty() {
                            from.push_str(&if st.commute { format!(", {}", name(perm[i])) } else { format!(" CROSS JOIN {}", name(perm[i])) });
                        } else {
                            from.push_str(&format!(" JOIN {} ON {}", name(perm[i]), all(&now)));
                        }
                    }
                    rest.append(&mut on);
                    rest.append(&mut wh);
                } else {
                    let two = ts.len() == 2 && st.swap;
                    from = name(if two { 1 } else { 0 });
                    for (i, k) in kinds.iter().enumerate() {
                        let w = match (k, two) {
                            (J::Inner, _) => "JOIN",
                            (J::Full, _) => "FULL JOIN",
                            (J::Left, false) | (J::Right, true) => "LEFT JOIN",
                            _ => "RIGHT JOIN",
                        };
                        from.push_str(&format!(" {w} {} ON {}", name(if two { 0 } else { i + 1 }), all(&on[i])));
                    }
                    rest = wh.clone();
                }
                let w = if rest.is_empty() { String::new() } else { format!(" WHERE {}", all(&rest)) };
                if *count {
                    return format!("SELECT {0}, COUNT(*) FROM {from}{w} GROUP BY {0}", cols[0]);
                }
                let o = order.as_ref().map(|(c, d)| format!(" ORDER BY {c}{}", if *d { " DESC" } else { "" })).unwrap_or_default();
                format!("SELECT {} FROM {from}{w}{o}", cols.join(", "))
            }
            St::Raw(s) => s.clone(),
        }
    }
    pub fn is_query(&self) -> bool {
        matches!(self, St::Sel { .. } | St::Agg { .. } | St::Join { .. } | St::Join3 { .. } | St::JoinN { .. })
    }
    /// The table a schema change is about.
    pub fn ddl(&self) -> Option<&str> {
        match self {
            St::Create { t, .. }
            | St::DropT { t, .. }
            | St::Index { t, .. }
            | St::AddCol { t, .. }
            | St::DropCol { t, .. }
            | St::SetDefault { t, .. }
            | St::DropDefault { t, .. }
            | St::SetNN { t, .. }
            | St::DropNN { t, .. }
            | St::AddPk { t, .. }
            | St::AddUniq { t, .. } => Some(t),
            _ => None,
        }
    }
    pub fn dml(&self) -> Option<&str> {
        match self {
            St::Ins { t, .. } | St::InsSel { t, .. } | St::Upd { t, .. } | St::Del { t, .. } => Some(t),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The model.

#[derive(Clone, Debug, PartialEq)]
pub struct Uniq {
    pub cols: Vec<String>,
    pub pk: bool,
    /// The name of the index, if it was made as an index.
    pub name: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Table {
    pub id: u64,
    /// Changes when the schema does.
    pub shape: u64,
    pub cols: Vec<Col>,
    pub uniq: Vec<Uniq>,
    pub rows: BTreeMap<u64, Vec<V>>,
}

impl Table {
    pub fn col(&self, n: &str) -> Option<usize> {
        self.cols.iter().position(|c| c.name == n)
    }
    pub fn key(&self, u: &[String], row: &[V]) -> Option<String> {
        let mut s = String::new();
        for c in u {
            let v = &row[self.col(c)?];
            if *v == V::Null {
                return None;
            }
            s.push_str(&v.show());
            s.push('\u{1}');
        }
        Some(s)
    }
    /// A pair of rows that agree on a unique key, or a NULL where there must be none.
    pub fn broken(&self) -> Option<String> {
        for u in &self.uniq {
            let mut seen = BTreeSet::new();
            for r in self.rows.values() {
                if let Some(k) = self.key(&u.cols, r)
                    && !seen.insert(k.clone())
                {
                    return Some(format!("two rows agree on ({})={k:?}", u.cols.join(",")));
                }
            }
        }
        for (i, c) in self.cols.iter().enumerate() {
            if c.nn && self.rows.values().any(|r| r[i] == V::Null) {
                return Some(format!("NULL in {}", c.name));
            }
        }
        None
    }
    pub fn sorted(&self) -> Vec<String> {
        let mut v: Vec<String> = self.rows.values().map(|r| show_row(r)).collect();
        v.sort();
        v
    }
}

pub fn show_row(r: &[V]) -> String {
    r.iter()
        .map(|v| match v {
            V::S(s) if s.len() > 60 => format!("'{}..'#{}:{:016x}", &s.chars().take(8).collect::<String>(), s.len(), crate::orch::fnv(0, s.as_bytes())),
            // -0 and 0 are alike.
            V::F(f) if *f == 0.0 => "0.0".into(),
            v => v.show(),
        })
        .collect::<Vec<_>>()
        .join(",")
}

#[derive(Clone, Debug, Default)]
pub struct State {
    pub tables: BTreeMap<String, Arc<Table>>,
}

/// What a statement is expected to answer.
#[derive(Clone, Debug)]
pub enum Expect {
    Count(u64),
    Ddl,
    /// Rows in any order; and the column that the answer must be sorted by.
    Rows(Vec<String>, Option<(usize, bool)>),
    /// It has to fail, for this reason.
    Fail(&'static str),
    /// Any answer.
    Any,
}

/// Row changes of one statement.
#[derive(Clone, Debug, Default)]
pub struct Effect {
    pub inserted: BTreeSet<(u64, u64)>,
    pub changed: BTreeSet<(u64, u64)>,
    /// Keys of unique constraints of new row versions: (table, columns=key).
    pub claims: BTreeSet<(u64, String)>,
    pub updates: usize,
}

#[derive(Clone, Copy, Default)]
pub struct Ids {
    pub row: u64,
    pub table: u64,
}

impl State {
    pub fn has_index(&self, name: &str) -> bool {
        self.tables.values().any(|t| t.uniq.iter().any(|u| u.name.as_deref() == Some(name)))
    }

    /// Runs a statement: the expected answer, the next state (the same if it fails) and what changed.
    pub fn run(&self, st: &St, ids: &mut Ids) -> (Expect, State, Effect) {
        let mut next = self.clone();
        let mut eff = Effect::default();
        let e = next.apply(st, ids, &mut eff);
        if matches!(e, Expect::Fail(_)) {
            return (e, self.clone(), Effect::default());
        }
        (e, next, eff)
    }

    /// Whether a statement compares and assigns only what can be compared and assigned. What
    /// becomes of others is not settled.
    pub fn typed(&self, st: &St) -> bool {
        let ok = |t: &str, p: &P| self.tables.get(t).is_none_or(|t| p.typed(t));
        let same = |a: &str, ca: &str, b: &str, cb: &str| match (self.tables.get(a), self.tables.get(b)) {
            (Some(a), Some(b)) => match (a.col(ca), b.col(cb)) {
                (Some(x), Some(y)) => a.cols[x].t.kind() == b.cols[y].t.kind(),
                _ => true,
            },
            _ => true,
        };
        // A BIGINT is not assigned to an INT.
        let fits = |a: &str, ca: &str, b: &str, cb: &str| {
            same(a, ca, b, cb)
                && match (self.tables.get(a), self.tables.get(b)) {
                    (Some(a), Some(b)) => match (a.col(ca), b.col(cb)) {
                        (Some(x), Some(y)) => !(a.cols[x].t == T::Int && b.cols[y].t != T::Int),
                        _ => true,
                    },
                    _ => true,
                }
        };
        // Numbers are taken for truth values and the other way around.
        let cast = |t: &Table, c: usize, l: &L| t.cols.get(c).is_some_and(|c| c.t.kind() + l.kind().unwrap_or(9) == 1 || (matches!(l, L::Q(_)) && matches!(c.t, T::Int | T::Big)));
        match st {
            St::Ins { t, cols, rows } => self.tables.get(t).is_none_or(|t| {
                rows.iter().all(|r| {
                    r.iter().enumerate().all(|(i, l)| match cols {
                        Some(c) => !c.get(i).and_then(|c| t.col(c)).is_some_and(|c| cast(t, c, l)),
                        None => !cast(t, i, l),
                    })
                })
            }),
            St::SetDefault { t, c, v } => self.tables.get(t).is_none_or(|t| !t.col(c).is_some_and(|c| cast(t, c, v))),
            St::Upd { t, set, p } => {
                ok(t, p)
                    && set.iter().all(|(c, x)| match x {
                        SetX::Lit(l) => self.tables.get(t).is_none_or(|t| !t.col(c).is_some_and(|c| cast(t, c, l))),
                        SetX::Plus(o, _) => ok(t, &P::Plus(o.clone(), 0, Cmp::Eq, 0)) && fits(t, c, t, o),
                        SetX::Col(o) => fits(t, c, t, o),
                    })
            }
            St::Del { t, p } | St::Sel { t, p, .. } => ok(t, p),
            St::Agg { t, aggs, p, .. } => {
                ok(t, p) && aggs.iter().all(|(a, c)| !matches!(a, Agg::Sum) || ok(t, &P::Plus(c.clone(), 0, Cmp::Eq, 0)))
            }
            St::InsSel { t, cols, from, src, p } => ok(from, p) && cols.iter().zip(src).all(|(c, s)| fits(t, c, from, s)),
            St::Join { a, b, ca, cb, pa, pb, .. } => ok(a, pa) && ok(b, pb) && same(a, ca, b, cb),
            St::Join3 { a, b, c, ca, cb, cb2, cc, pa, .. } => ok(a, pa) && same(a, ca, b, cb) && same(b, cb2, c, cc),
            St::JoinN { ts, on, wh, .. } => {
                let ty = |c: &str| {
                    let (i, n) = split_q(c);
                    let t = self.tables.get(ts.get(i)?)?;
                    t.col(n).map(|c| t.cols[c].t)
                };
                on.iter().flatten().chain(wh).all(|p| p.typed_by(&ty))
            }
            _ => true,
        }
    }

    fn apply(&mut self, st: &St, ids: &mut Ids, eff: &mut Effect) -> Expect {
        use Expect::*;
        macro_rules! table {
            ($t:expr) => {
                match self.tables.get($t) {
                    Some(t) => t.clone(),
                    None => return Fail("no such table"),
                }
            };
        }
        macro_rules! known {
            ($t:expr, $p:expr) => {
                let mut c = Vec::new();
                $p.columns(&mut c);
                if c.iter().any(|c| $t.col(c).is_none()) {
                    return Fail("no such column");
                }
            };
        }
        match st {
            St::Create { t, cols, pk, uniq, ine } => {
                if self.tables.contains_key(t) {
                    return if *ine { Any } else { Fail("table exists") };
                }
                if self.has_index(t) {
                    return Fail("name is taken");
                }
                let mut cols = cols.clone();
                for c in cols.iter_mut() {
                    if pk.contains(&c.name) {
                        c.nn = true;
                    }
                }
                let mut u = Vec::new();
                if !pk.is_empty() {
                    u.push(Uniq { cols: pk.clone(), pk: true, name: None });
                }
                for k in uniq {
                    u.push(Uniq { cols: k.clone(), pk: false, name: None });
                }
                ids.table += 1;
                self.tables.insert(t.clone(), Arc::new(Table { id: ids.table, shape: ids.table, cols, uniq: u, rows: BTreeMap::new() }));
                Ddl
            }
            St::DropT { t, ie } => {
                if self.tables.remove(t).is_none() {
                    return if *ie { Any } else { Fail("no such table") };
                }
                Ddl
            }
            St::Index { name, t, cols } => {
                let tab = table!(t);
                if self.tables.contains_key(name) || self.has_index(name) {
                    return Fail("name is taken");
                }
                if cols.iter().any(|c| tab.col(c).is_none()) {
                    return Fail("no such column");
                }
                let mut n = (*tab).clone();
                n.uniq.push(Uniq { cols: cols.clone(), pk: false, name: Some(name.clone()) });
                self.reshape(t, n, ids)
            }
            St::AddPk { t, cols } => {
                let tab = table!(t);
                if cols.iter().any(|c| tab.col(c).is_none()) {
                    return Fail("no such column");
                }
                if tab.uniq.iter().any(|u| u.pk) {
                    return Fail("a second primary key");
                }
                let mut n = (*tab).clone();
                for c in n.cols.iter_mut() {
                    c.nn |= cols.contains(&c.name);
                }
                n.uniq.push(Uniq { cols: cols.clone(), pk: true, name: None });
                self.reshape(t, n, ids)
            }
            St::AddUniq { t, cols } => {
                let tab = table!(t);
                if cols.iter().any(|c| tab.col(c).is_none()) {
                    return Fail("no such column");
                }
                let mut n = (*tab).clone();
                n.uniq.push(Uniq { cols: cols.clone(), pk: false, name: None });
                self.reshape(t, n, ids)
            }
            St::AddCol { t, col } => {
                let tab = table!(t);
                if tab.col(&col.name).is_some() {
                    return Fail("column exists");
                }
                let mut n = (*tab).clone();
                let v = match &col.default {
                    Some(d) => match d.fit(col.t) {
                        Some(v) => v,
                        None => return Fail("default of another type"),
                    },
                    None => V::Null,
                };
                n.cols.push(col.clone());
                for r in n.rows.values_mut() {
                    r.push(v.clone());
                }
                self.reshape(t, n, ids)
            }
            St::DropCol { t, c } => {
                let tab = table!(t);
                let Some(i) = tab.col(c) else { return Fail("no such column") };
                if tab.uniq.iter().any(|u| u.cols.contains(c)) {
                    return Fail("column of a constraint");
                }
                let mut n = (*tab).clone();
                n.cols.remove(i);
                for r in n.rows.values_mut() {
                    r.remove(i);
                }
                self.reshape(t, n, ids)
            }
            St::SetDefault { t, c, .. } | St::DropDefault { t, c } | St::SetNN { t, c } | St::DropNN { t, c } => {
                let tab = table!(t);
                let Some(i) = tab.col(c) else { return Fail("no such column") };
                let mut n = (*tab).clone();
                match st {
                    St::SetDefault { v, .. } => {
                        if v.fit(n.cols[i].t).is_none() {
                            return Fail("default of another type");
                        }
                        n.cols[i].default = Some(v.clone())
                    }
                    St::DropDefault { .. } => n.cols[i].default = None,
                    St::SetNN { .. } => n.cols[i].nn = true,
                    _ => {
                        if tab.uniq.iter().any(|u| u.pk && u.cols.contains(c)) {
                            return Fail("column of the primary key");
                        }
                        n.cols[i].nn = false
                    }
                }
                self.reshape(t, n, ids)
            }
            St::Ins { t, cols, rows } => {
                let tab = table!(t);
                let order: Vec<usize> = match cols {
                    Some(c) => {
                        let mut o = Vec::new();
                        for x in c {
                            match tab.col(x) {
                                Some(i) => o.push(i),
                                None => return Fail("no such column"),
                            }
                        }
                        o
                    }
                    None => (0..tab.cols.len()).collect(),
                };
                let mut new = Vec::new();
                for r in rows {
                    if r.len() != order.len() {
                        return Fail("wrong number of values");
                    }
                    let mut row: Vec<V> = tab.cols.iter().map(|c| c.default.as_ref().and_then(|d| d.fit(c.t)).unwrap_or(V::Null)).collect();
                    for (l, i) in r.iter().zip(&order) {
                        match l.fit(tab.cols[*i].t) {
                            Some(v) => row[*i] = v,
                            None => return Fail("value of another type"),
                        }
                    }
                    new.push(row);
                }
                self.insert(t, new, ids, eff)
            }
            St::InsSel { t, cols, from, src, p } => {
                let tab = table!(t);
                let f = table!(from);
                known!(f, p);
                if src.iter().any(|c| f.col(c).is_none()) || cols.iter().any(|c| tab.col(c).is_none()) || src.len() != cols.len() {
                    return Fail("no such column");
                }
                let mut new = Vec::new();
                for r in f.rows.values() {
                    if p.eval(&|c| r[f.col(c).unwrap()].clone()) != Some(true) {
                        continue;
                    }
                    let mut row: Vec<V> = tab.cols.iter().map(|c| c.default.as_ref().and_then(|d| d.fit(c.t)).unwrap_or(V::Null)).collect();
                    for (s, c) in src.iter().zip(cols) {
                        row[tab.col(c).unwrap()] = r[f.col(s).unwrap()].clone();
                    }
                    new.push(row);
                }
                self.insert(t, new, ids, eff)
            }
            St::Upd { t, set, p } => {
                let tab = table!(t);
                known!(tab, p);
                for (c, x) in set {
                    let Some(ci) = tab.col(c) else { return Fail("no such column") };
                    match x {
                        SetX::Plus(o, _) | SetX::Col(o) if tab.col(o).is_none() => return Fail("no such column"),
                        SetX::Lit(l) if l.fit(tab.cols[ci].t).is_none() => {
                            // Not noticed if no row is addressed.
                            let hit = tab.rows.values().any(|r| p.eval(&|c| r[tab.col(c).unwrap()].clone()) == Some(true));
                            return if hit { Fail("value of another type") } else { Any };
                        }
                        _ => {}
                    }
                }
                let mut n = (*tab).clone();
                let mut count = 0;
                for (rid, r) in &tab.rows {
                    let get = |c: &str| r[tab.col(c).unwrap()].clone();
                    if p.eval(&get) != Some(true) {
                        continue;
                    }
                    let mut row = r.clone();
                    for (c, x) in set {
                        let ci = tab.col(c).unwrap();
                        row[ci] = match x {
                            SetX::Lit(l) => l.fit(tab.cols[ci].t).unwrap(),
                            SetX::Plus(o, k) => match get(o) {
                                V::I(i) => V::I(i + k),
                                V::F(f) => V::F(f + *k as f64),
                                _ => V::Null,
                            },
                            SetX::Col(o) => get(o),
                        };
                    }
                    count += 1;
                    eff.changed.insert((tab.id, *rid));
                    for u in &tab.uniq {
                        if let Some(k) = tab.key(&u.cols, &row) {
                            eff.claims.insert((tab.id, format!("{}={k}", u.cols.join(","))));
                        }
                    }
                    n.rows.insert(*rid, row);
                }
                eff.updates += count as usize;
                if n.broken().is_some() {
                    return Fail("constraint");
                }
                self.tables.insert(t.clone(), Arc::new(n));
                Count(count)
            }
            St::Del { t, p } => {
                let tab = table!(t);
                known!(tab, p);
                let mut n = (*tab).clone();
                let mut count = 0;
                for (rid, r) in &tab.rows {
                    if p.eval(&|c| r[tab.col(c).unwrap()].clone()) == Some(true) {
                        count += 1;
                        eff.changed.insert((tab.id, *rid));
                        n.rows.remove(rid);
                    }
                }
                self.tables.insert(t.clone(), Arc::new(n));
                Count(count)
            }
            St::Sel { t, cols, p, order, limit, distinct } => {
                let tab = table!(t);
                known!(tab, p);
                if cols.iter().any(|c| tab.col(c).is_none()) {
                    return Fail("no such column");
                }
                let mut rows: Vec<&Vec<V>> =
                    tab.rows.values().filter(|r| p.eval(&|c| r[tab.col(c).unwrap()].clone()) == Some(true)).collect();
                let mut sorted = None;
                if let Some((c, desc)) = order {
                    let Some(i) = tab.col(c) else { return Fail("no such column") };
                    rows.sort_by(|a, b| {
                        let o = order_values(&a[i], &b[i]);
                        if *desc { o.reverse() } else { o }
                    });
                    sorted = cols.iter().position(|x| x == c).map(|k| (k, *desc));
                }
                if let Some((n, o)) = limit {
                    rows = rows.into_iter().skip(*o).take(*n).collect();
                }
                let mut out: Vec<String> =
                    rows.iter().map(|r| show_row(&cols.iter().map(|c| r[tab.col(c).unwrap()].clone()).collect::<Vec<_>>())).collect();
                out.sort();
                if *distinct {
                    out.dedup();
                }
                Rows(out, sorted)
            }
            St::Agg { t, group, aggs, p } => {
                let tab = table!(t);
                known!(tab, p);
                if group.iter().any(|g| tab.col(g).is_none()) || aggs.iter().any(|(a, c)| *a != Agg::CountAll && tab.col(c).is_none()) {
                    return Fail("no such column");
                }
                let mut groups: BTreeMap<String, (Option<V>, Vec<&Vec<V>>)> = BTreeMap::new();
                if group.is_none() {
                    groups.insert(String::new(), (None, Vec::new()));
                }
                for r in tab.rows.values() {
                    if p.eval(&|c| r[tab.col(c).unwrap()].clone()) != Some(true) {
                        continue;
                    }
                    let g = group.as_ref().map(|g| r[tab.col(g).unwrap()].clone());
                    let k = g.as_ref().map(|g| g.show()).unwrap_or_default();
                    groups.entry(k).or_insert((g, Vec::new())).1.push(r);
                }
                let mut out = Vec::new();
                for (g, rows) in groups.into_values() {
                    let mut o: Vec<V> = g.into_iter().collect();
                    for (a, c) in aggs {
                        let vals: Vec<&V> = match a {
                            Agg::CountAll => Vec::new(),
                            _ => rows.iter().map(|r| &r[tab.col(c).unwrap()]).filter(|v| **v != V::Null).collect(),
                        };
                        o.push(match a {
                            Agg::CountAll => V::I(rows.len() as i64),
                            Agg::Count => V::I(vals.len() as i64),
                            Agg::Sum if vals.is_empty() => V::Null,
                            Agg::Sum => V::F(vals.iter().map(|v| match v { V::I(i) => *i as f64, V::F(f) => *f, _ => 0.0 }).sum()),
                            Agg::Min => vals.iter().min_by(|a, b| order_values(a, b)).map(|v| (*v).clone()).unwrap_or(V::Null),
                            Agg::Max => vals.iter().max_by(|a, b| order_values(a, b)).map(|v| (*v).clone()).unwrap_or(V::Null),
                        });
                    }
                    out.push(show_row(&o));
                }
                out.sort();
                Rows(out, None)
            }
            St::Join { a, b, ca, cb, cols, pa, pb } => {
                let ta = table!(a);
                let tb = table!(b);
                known!(ta, pa);
                known!(tb, pb);
                let (Some(ia), Some(ib)) = (ta.col(ca), tb.col(cb)) else { return Fail("no such column") };
                if cols.iter().any(|(s, c)| if *s { tb.col(c) } else { ta.col(c) }.is_none()) {
                    return Fail("no such column");
                }
                let mut out = Vec::new();
                for ra in ta.rows.values() {
                    if pa.eval(&|c| ra[ta.col(c).unwrap()].clone()) != Some(true) {
                        continue;
                    }
                    for rb in tb.rows.values() {
                        if vcmp(&ra[ia], &rb[ib]) != Some(Ordering::Equal) || pb.eval(&|c| rb[tb.col(c).unwrap()].clone()) != Some(true) {
                            continue;
                        }
                        let o: Vec<V> = cols
                            .iter()
                            .map(|(s, c)| if *s { rb[tb.col(c).unwrap()].clone() } else { ra[ta.col(c).unwrap()].clone() })
                            .collect();
                        out.push(show_row(&o));
                    }
                }
                out.sort();
                Rows(out, None)
            }
            St::Join3 { a, b, c, ca, cb, cb2, cc, cols, pa } => {
                let (ta, tb, tc) = (table!(a), table!(b), table!(c));
                known!(ta, pa);
                let (Some(ia), Some(ib), Some(ib2), Some(ic)) = (ta.col(ca), tb.col(cb), tb.col(cb2), tc.col(cc)) else {
                    return Fail("no such column");
                };
                if cols.iter().any(|(w, c)| [&ta, &tb, &tc][*w as usize % 3].col(c).is_none()) {
                    return Fail("no such column");
                }
                let mut out = Vec::new();
                for ra in ta.rows.values() {
                    if pa.eval(&|c| ra[ta.col(c).unwrap()].clone()) != Some(true) {
                        continue;
                    }
                    for rb in tb.rows.values() {
                        if vcmp(&ra[ia], &rb[ib]) != Some(Ordering::Equal) {
                            continue;
                        }
                        for rc in tc.rows.values() {
                            if vcmp(&rb[ib2], &rc[ic]) != Some(Ordering::Equal) {
                                continue;
                            }
                            let o: Vec<V> = cols
                                .iter()
                                .map(|(w, c)| match w % 3 {
                                    0 => ra[ta.col(c).unwrap()].clone(),
                                    1 => rb[tb.col(c).unwrap()].clone(),
                                    _ => rc[tc.col(c).unwrap()].clone(),
                                })
                                .collect();
                            out.push(show_row(&o));
                        }
                    }
                }
                out.sort();
                Rows(out, None)
            }
            St::JoinN { ts, kinds, on, wh, cols, order, count } => {
                let mut tabs: Vec<Arc<Table>> = Vec::new();
                for t in ts {
                    tabs.push(table!(t));
                }
                let known = |c: &str| {
                    let (i, n) = split_q(c);
                    tabs.get(i).is_some_and(|t| t.col(n).is_some())
                };
                let mut used = if *count { cols[..1].to_vec() } else { cols.clone() };
                used.extend(order.iter().map(|o| o.0.clone()));
                on.iter().flatten().chain(wh).for_each(|p| p.columns(&mut used));
                if used.iter().any(|c| !known(c)) {
                    return Fail("no such column");
                }
                let get = |row: &[Option<&Vec<V>>], c: &str| -> V {
                    let (i, n) = split_q(c);
                    match row.get(i) {
                        Some(Some(r)) => r[tabs[i].col(n).unwrap()].clone(),
                        _ => V::Null,
                    }
                };
                let holds = |ps: &[P], row: &[Option<&Vec<V>>]| ps.iter().all(|p| p.eval(&|c| get(row, c)) == Some(true));
                let mut rows: Vec<Vec<Option<&Vec<V>>>> = tabs[0].rows.values().map(|r| vec![Some(r)]).collect();
                for (i, k) in kinds.iter().enumerate() {
                    let mut next = Vec::new();
                    let mut hit = vec![false; tabs[i + 1].rows.len()];
                    for row in rows {
                        let mut any = false;
                        for (n, r) in tabs[i + 1].rows.values().enumerate() {
                            let mut c = row.clone();
                            c.push(Some(r));
                            if holds(&on[i], &c) {
                                any = true;
                                hit[n] = true;
                                next.push(c);
                            }
                        }
                        if !any && matches!(k, J::Left | J::Full) {
                            let mut c = row.clone();
                            c.push(None);
                            next.push(c);
                        }
                    }
                    if matches!(k, J::Right | J::Full) {
                        for (n, r) in tabs[i + 1].rows.values().enumerate() {
                            if !hit[n] {
                                let mut c = vec![None; i + 1];
                                c.push(Some(r));
                                next.push(c);
                            }
                        }
                    }
                    rows = next;
                }
                rows.retain(|r| holds(wh, r));
                let mut out: Vec<String> = Vec::new();
                if *count {
                    let mut n: BTreeMap<String, (V, i64)> = BTreeMap::new();
                    for r in &rows {
                        let v = get(r, &cols[0]);
                        n.entry(v.show()).or_insert((v, 0)).1 += 1;
                    }
                    out.extend(n.into_values().map(|(v, n)| show_row(&[v, V::I(n)])));
                    out.sort();
                    return Rows(out, None);
                }
                for r in &rows {
                    out.push(show_row(&cols.iter().map(|c| get(r, c)).collect::<Vec<_>>()));
                }
                out.sort();
                let sorted = order.as_ref().and_then(|(c, d)| cols.iter().position(|x| x == c).map(|k| (k, *d)));
                Rows(out, sorted)
            }
            St::Raw(_) => Any,
        }
    }

    fn reshape(&mut self, t: &str, mut n: Table, ids: &mut Ids) -> Expect {
        if n.broken().is_some() {
            return Expect::Fail("constraint");
        }
        ids.table += 1;
        n.shape = ids.table;
        self.tables.insert(t.into(), Arc::new(n));
        Expect::Ddl
    }

    fn insert(&mut self, t: &str, new: Vec<Vec<V>>, ids: &mut Ids, eff: &mut Effect) -> Expect {
        let tab = self.tables[t].clone();
        let mut n = (*tab).clone();
        let count = new.len() as u64;
        for row in new {
            ids.row += 1;
            for u in &tab.uniq {
                if let Some(k) = tab.key(&u.cols, &row) {
                    eff.claims.insert((tab.id, format!("{}={k}", u.cols.join(","))));
                }
            }
            eff.inserted.insert((tab.id, ids.row));
            n.rows.insert(ids.row, row);
        }
        if n.broken().is_some() {
            return Expect::Fail("constraint");
        }
        self.tables.insert(t.into(), Arc::new(n));
        Expect::Count(count)
    }
}

/// NULLs sort after everything.
pub fn order_values(a: &V, b: &V) -> Ordering {
    match (a, b) {
        (V::Null, V::Null) => Ordering::Equal,
        (V::Null, _) => Ordering::Greater,
        (_, V::Null) => Ordering::Less,
        _ => vcmp(a, b).unwrap_or(Ordering::Equal),
    }
}

/// Compares an answer with what was expected of it.
pub fn check_answer(e: &Expect, r: &Res) -> Result<(), String> {
    match (e, r) {
        (Expect::Any, _) => Ok(()),
        (Expect::Count(n), Res::Count(m)) if n == m => Ok(()),
        (Expect::Count(n), r) => Err(format!("expected a count of {n}, got {}", r.show())),
        (Expect::Ddl, Res::Ddl(_)) => Ok(()),
        (Expect::Ddl, r) => Err(format!("expected a schema change, got {}", r.show())),
        (Expect::Rows(want, sorted), Res::Rows { rows, .. }) => {
            let mut got: Vec<String> = rows.iter().map(|r| show_row(r)).collect();
            if let Some((k, desc)) = sorted {
                for w in rows.windows(2) {
                    let o = order_values(&w[0][*k], &w[1][*k]);
                    if o == if *desc { Ordering::Less } else { Ordering::Greater } {
                        return Err(format!("rows out of order: ({}) before ({})", show_row(&w[0]), show_row(&w[1])));
                    }
                }
            }
            got.sort();
            if got == *want { Ok(()) } else { Err(diff(want, &got)) }
        }
        (Expect::Rows(..), r) => Err(format!("expected rows, got {}", r.show())),
        (Expect::Fail(w), r) => Err(format!("expected it to fail ({w}), got {}", r.show())),
    }
}

pub fn diff(want: &[String], got: &[String]) -> String {
    let mut w: BTreeMap<&String, i64> = BTreeMap::new();
    for x in want {
        *w.entry(x).or_default() += 1;
    }
    for x in got {
        *w.entry(x).or_default() -= 1;
    }
    let missing: Vec<String> = w.iter().filter(|(_, n)| **n > 0).map(|(x, n)| format!("{n}x({x})")).take(6).collect();
    let extra: Vec<String> = w.iter().filter(|(_, n)| **n < 0).map(|(x, n)| format!("{}x({x})", -n)).take(6).collect();
    format!("expected {} rows, got {}; missing: {}; unexpected: {}", want.len(), got.len(), missing.join(" "), extra.join(" "))
}
