//! Typed values as JSON-friendly data, and generators for them.
use crate::rng::Rng;
use axmosdb::{Blob, DataType, DataTypeKind, Float32, Float64, Int32, Int64, UInt32, UInt64};
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum K {
    Bool,
    Int,
    BigInt,
    UInt,
    BigUInt,
    Float,
    Double,
    Text,
}

pub const KINDS: [K; 8] = [K::Bool, K::Int, K::BigInt, K::UInt, K::BigUInt, K::Float, K::Double, K::Text];

impl K {
    pub fn kind(self) -> DataTypeKind {
        match self {
            K::Bool => DataTypeKind::Bool,
            K::Int => DataTypeKind::Int,
            K::BigInt => DataTypeKind::BigInt,
            K::UInt => DataTypeKind::UInt,
            K::BigUInt => DataTypeKind::BigUInt,
            K::Float => DataTypeKind::Float,
            K::Double => DataTypeKind::Double,
            K::Text => DataTypeKind::Blob,
        }
    }
}

/// A value; floats by their bits, text by (seed, length) when long.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum W {
    N,
    B(bool),
    I(i32),
    L(i64),
    U(u32),
    M(u64),
    F(u32),
    D(u64),
    T(String),
    /// Text derived from a seed: `len` bytes starting with a prefix.
    G(String, u64, usize),
}

pub fn long_text(prefix: &str, seed: u64, len: usize) -> String {
    let mut r = Rng::new(seed);
    let mut s = String::with_capacity(len + 8);
    s.push_str(prefix);
    while s.len() < len {
        let x = r.next();
        for k in 0..8 {
            s.push((b'a' + ((x >> (k * 8)) % 26) as u8) as char);
        }
    }
    s.truncate(len.max(prefix.len()));
    s
}

impl W {
    pub fn text(&self) -> Option<String> {
        match self {
            W::T(s) => Some(s.clone()),
            W::G(p, s, n) => Some(long_text(p, *s, *n)),
            _ => None,
        }
    }
    pub fn data(&self) -> DataType {
        match self {
            W::N => DataType::Null,
            W::B(b) => DataType::Bool((*b).into()),
            W::I(x) => DataType::Int(Int32::from(*x)),
            W::L(x) => DataType::BigInt(Int64::from(*x)),
            W::U(x) => DataType::UInt(UInt32::from(*x)),
            W::M(x) => DataType::BigUInt(UInt64::from(*x)),
            W::F(x) => DataType::Float(Float32::from(f32::from_bits(*x))),
            W::D(x) => DataType::Double(Float64::from(f64::from_bits(*x))),
            W::T(_) | W::G(..) => DataType::Blob(Blob::from(self.text().unwrap().as_str())),
        }
    }
    pub fn same(&self, d: &DataType) -> bool {
        match (self, d) {
            (W::N, DataType::Null) => true,
            (W::B(b), DataType::Bool(x)) => *b == x.value(),
            (W::I(a), DataType::Int(x)) => *a == x.value(),
            (W::L(a), DataType::BigInt(x)) => *a == x.value(),
            (W::U(a), DataType::UInt(x)) => *a == x.value(),
            (W::M(a), DataType::BigUInt(x)) => *a == x.value(),
            (W::F(a), DataType::Float(x)) => *a == x.value().to_bits(),
            (W::D(a), DataType::Double(x)) => *a == x.value().to_bits(),
            (W::T(_) | W::G(..), DataType::Blob(b)) => b.data().map(|x| x == self.text().unwrap().as_bytes()).unwrap_or(false),
            _ => false,
        }
    }
    pub fn brief(&self) -> String {
        match self {
            W::G(p, s, n) => format!("text({p:?}..#{s} {n}B)"),
            w => format!("{w:?}"),
        }
    }
    pub fn cmp(&self, o: &W) -> Ordering {
        match (self, o) {
            (W::B(a), W::B(b)) => a.cmp(b),
            (W::I(a), W::I(b)) => a.cmp(b),
            (W::L(a), W::L(b)) => a.cmp(b),
            (W::U(a), W::U(b)) => a.cmp(b),
            (W::M(a), W::M(b)) => a.cmp(b),
            (W::F(a), W::F(b)) => f32::from_bits(*a).partial_cmp(&f32::from_bits(*b)).unwrap(),
            (W::D(a), W::D(b)) => f64::from_bits(*a).partial_cmp(&f64::from_bits(*b)).unwrap(),
            _ => self.text().unwrap().as_bytes().cmp(o.text().unwrap().as_bytes()),
        }
    }
}

pub fn brief(d: &DataType) -> String {
    match d {
        DataType::Blob(b) => match b.data() {
            Ok(x) if x.len() > 40 => format!("text({}.. {}B #{:016x})", String::from_utf8_lossy(&x[..12]), x.len(), crate::orch::fnv(0, x)),
            Ok(x) => format!("{:?}", String::from_utf8_lossy(x)),
            Err(e) => format!("bad text {e}"),
        },
        d => format!("{d:?}"),
    }
}

pub fn brief_row(r: &[DataType]) -> String {
    format!("({})", r.iter().map(brief).collect::<Vec<_>>().join(", "))
}

const WORDS: [&str; 14] =
    ["", "a", "b", "ab", "abc", "aa", "a b", "it''s", "Zürich", "日本", "\u{1F600}", "NULL", "0", "aaaaaaaaaaaaaaaa"];

/// Any value of a kind, with a taste for boundaries.
pub fn value(r: &mut Rng, k: K, max_text: usize) -> W {
    let edge = r.chance(350);
    match k {
        K::Bool => W::B(r.chance(500)),
        K::Int => W::I(if edge { *r.pick(&[0, 1, -1, i32::MAX, i32::MIN, 127, 128, 255, 256]) } else { r.next() as i32 }),
        K::BigInt => W::L(if edge { *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, 255, 256, 1 << 32]) } else { r.next() as i64 }),
        K::UInt => W::U(if edge { *r.pick(&[0, 1, u32::MAX, 255, 256, 1 << 31]) } else { r.next() as u32 }),
        K::BigUInt => W::M(if edge { *r.pick(&[0, 1, u64::MAX, 255, 256, 1 << 63]) } else { r.next() }),
        K::Float => W::F(if edge {
            (*r.pick(&[0.0f32, -0.0, 1.5, -1.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN])).to_bits()
        } else {
            ((r.next() as i32) as f32 / 64.0).to_bits()
        }),
        K::Double => W::D(if edge {
            (*r.pick(&[0.0f64, -0.0, 1.5, -1.5, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN])).to_bits()
        } else {
            ((r.next() as i64) as f64 / 4096.0).to_bits()
        }),
        K::Text => {
            if r.chance(400) {
                W::T(r.pick(&WORDS).to_string())
            } else {
                let n = match r.weighted(&[10, 10, 6, 3, 2]) {
                    0 => r.usize(8),
                    1 => r.usize(40),
                    2 => 120 + r.usize(20),
                    3 => r.usize(400),
                    _ => r.usize(max_text.max(1)),
                };
                let n = n.min(max_text);
                W::G(String::new(), r.next(), n)
            }
        }
    }
}
