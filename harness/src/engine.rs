//! Thin wrapper over the engine's public API: plain values, plain results.
use axmosdb::{DBConfig, Database, DataType, runtime::QueryResult, tcp::session::Session};
use serde::{Deserialize, Serialize};
use std::path::Path;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Knobs {
    pub page: usize,
    pub cache: usize,
    pub pool: usize,
    pub min_keys: usize,
    pub sib: usize,
}

impl Default for Knobs {
    fn default() -> Self {
        Self { page: 4096, cache: 2000, pool: 2, min_keys: 3, sib: 2 }
    }
}

impl Knobs {
    pub fn config(&self) -> DBConfig {
        DBConfig::new(self.page, self.cache, self.pool, self.min_keys, self.sib)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum V {
    Null,
    I(i64),
    U(u64),
    F(f64),
    B(bool),
    S(String),
}

impl V {
    pub fn from(d: &DataType) -> V {
        match d {
            DataType::Null => V::Null,
            DataType::Bool(b) => V::B(b.value()),
            DataType::Int(i) => V::I(i.value() as i64),
            DataType::BigInt(i) => V::I(i.value()),
            DataType::UInt(i) => V::U(i.value() as u64),
            DataType::BigUInt(i) => V::U(i.value()),
            DataType::Float(f) => V::F(f.value() as f64),
            DataType::Double(f) => V::F(f.value()),
            DataType::Blob(_) => {
                let s = d.to_string();
                V::S(s)
            }
        }
    }
    /// Canonical form used in comparisons: integers of any width print alike.
    pub fn show(&self) -> String {
        match self {
            V::Null => "NULL".into(),
            V::I(i) => i.to_string(),
            V::U(u) => u.to_string(),
            V::F(f) => format!("{f:?}"),
            V::B(b) => b.to_string(),
            V::S(s) => format!("'{s}'"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Rows { cols: Vec<String>, rows: Vec<Vec<V>> },
    Count(u64),
    Ddl(String),
}

impl Res {
    pub fn from(r: QueryResult) -> Res {
        match r {
            QueryResult::Rows(rows) => {
                let n = rows.num_columns();
                Res::Rows {
                    cols: (0..n).map(|i| rows.column(i).unwrap_or("?").to_string()).collect(),
                    rows: rows.iterrows().map(|r| (0..r.len()).map(|i| V::from(&r[i])).collect()).collect(),
                }
            }
            QueryResult::RowsAffected(n) => Res::Count(n),
            QueryResult::Ddl(d) => Res::Ddl(format!("{d:?}")),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Res::Rows { cols, rows } => {
                let mut s = format!("[{}]", cols.join(","));
                for r in rows.iter().take(20) {
                    s.push_str(&format!(" ({})", crate::fam::sqlm::show_row(r)));
                }
                s.push_str(&format!(" #{}", rows.len()));
                s
            }
            Res::Count(n) => format!("count {n}"),
            Res::Ddl(d) => format!("ddl {d}"),
        }
    }
}

pub type R<T> = Result<T, String>;

pub struct Db {
    pub db: Database,
}

impl Db {
    pub fn create(p: &Path, k: Knobs) -> R<Db> {
        Database::create(p, k.config()).map(|db| Db { db }).map_err(|e| e.to_string())
    }
    pub fn open(p: &Path, k: Knobs) -> R<Db> {
        Database::open(p, k.config()).map(|db| Db { db }).map_err(|e| e.to_string())
    }
    pub fn exec(&self, sql: &str) -> R<Res> {
        self.db.execute(sql).map(Res::from).map_err(|e| e.to_string())
    }
    pub fn batch(&self, sql: &[&str]) -> R<Vec<Res>> {
        self.db.execute_batch(sql).map(|v| v.into_iter().map(Res::from).collect()).map_err(|e| e.to_string())
    }
    pub fn session(&self) -> R<Session> {
        self.db.session().map_err(|e| e.to_string())
    }
    pub fn flush(&self) -> R<()> {
        self.db.flush().map_err(|e| e.to_string())
    }
    pub fn vacuum(&self) -> R<String> {
        self.db.vacuum().map(|s| format!("{s:?}")).map_err(|e| e.to_string())
    }
    pub fn analyze(&self) -> R<()> {
        self.db.analyze(1.0, 100000).map_err(|e| e.to_string())
    }
}

pub fn sexec(s: &mut Session, sql: &str) -> R<Res> {
    s.execute(sql).map(Res::from).map_err(|e| e.to_string())
}
