//! The reference model of a writer: schema, operations, accepted points.
use crate::ctx::H;
use std::collections::BTreeMap;
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::{IoTDBValue, TSDataType};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ty {
    I32,
    I64,
    F32,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Enc {
    Plain,
    Diff,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Comp {
    Raw,
    Snappy,
}

impl Ty {
    pub fn code(self) -> u8 {
        match self {
            Ty::I32 => 1,
            Ty::I64 => 2,
            Ty::F32 => 3,
        }
    }
    pub fn api(self) -> TSDataType {
        match self {
            Ty::I32 => TSDataType::INT32,
            Ty::I64 => TSDataType::INT64,
            Ty::F32 => TSDataType::FLOAT,
        }
    }
}
impl Enc {
    pub fn code(self) -> u8 {
        match self {
            Enc::Plain => 0,
            Enc::Diff => 4,
        }
    }
    pub fn api(self) -> TSEncoding {
        match self {
            Enc::Plain => TSEncoding::PLAIN,
            Enc::Diff => TSEncoding::TS2DIFF,
        }
    }
}
impl Comp {
    pub fn code(self) -> u8 {
        match self {
            Comp::Raw => 0,
            Comp::Snappy => 1,
        }
    }
    pub fn api(self) -> CompressionType {
        match self {
            Comp::Raw => CompressionType::UNCOMPRESSED,
            Comp::Snappy => CompressionType::SNAPPY,
        }
    }
}

/// Value; floats by their bits so that comparison is exact
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    I(i32),
    L(i64),
    F(u32),
    D(u64),
}

impl Val {
    pub fn f(v: f32) -> Val {
        Val::F(v.to_bits())
    }
    pub fn api(self) -> IoTDBValue {
        match self {
            Val::I(v) => IoTDBValue::INT(v),
            Val::L(v) => IoTDBValue::LONG(v),
            Val::F(v) => IoTDBValue::FLOAT(f32::from_bits(v)),
            Val::D(v) => IoTDBValue::DOUBLE(f64::from_bits(v)),
        }
    }
    pub fn fits(self, t: Ty) -> bool {
        matches!((self, t), (Val::I(_), Ty::I32) | (Val::L(_), Ty::I64) | (Val::F(_), Ty::F32))
    }
    pub fn small(t: Ty, k: i64) -> Val {
        match t {
            Ty::I32 => Val::I(k as i32),
            Ty::I64 => Val::L(k),
            Ty::F32 => Val::f(k as f32),
        }
    }
    pub fn hash(self, h: &mut H) {
        match self {
            Val::I(v) => h.u(v as u64).u(1),
            Val::L(v) => h.u(v as u64).u(2),
            Val::F(v) => h.u(v as u64).u(3),
            Val::D(v) => h.u(v).u(4),
        };
    }
}

pub type Name = &'static str;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ser {
    pub dev: Name,
    pub sen: Name,
    pub ty: Ty,
    pub enc: Enc,
    pub comp: Comp,
}

pub fn ser(dev: Name, sen: Name, ty: Ty, enc: Enc, comp: Comp) -> Ser {
    Ser { dev, sen, ty, enc, comp }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    W(Name, Name, i64, Val),
    M(Name, i64, Vec<(Name, Val)>),
    Close,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Why {
    Unknown,
    Type,
    Encoding,
    Order,
    Closed,
}

pub type Pts = Vec<(i64, Val)>;

#[derive(Clone)]
pub struct Model {
    pub sch: Vec<Ser>,
    pub pts: BTreeMap<(Name, Name), Pts>,
    pub closed: bool,
}

impl Model {
    pub fn new(sch: &[Ser]) -> Model {
        Model { sch: sch.to_vec(), pts: BTreeMap::new(), closed: false }
    }

    pub fn find(&self, dev: &str, sen: &str) -> Option<Ser> {
        self.sch.iter().find(|s| s.dev == dev && s.sen == sen).copied()
    }

    pub fn last(&self, dev: &str, sen: &str) -> Option<i64> {
        self.pts
            .iter()
            .find(|((d, s), _)| *d == dev && *s == sen)
            .and_then(|(_, p)| p.last())
            .map(|p| p.0)
    }

    /// Reasons for refusing a point; empty when it must be accepted.
    pub fn refusals(&self, dev: Name, sen: Name, ts: i64, v: Val) -> Vec<Why> {
        let mut r = vec![];
        if self.closed {
            r.push(Why::Closed);
        }
        match self.find(dev, sen) {
            None => {
                r.push(Why::Unknown);
                if ts < 0 {
                    r.push(Why::Order);
                }
            }
            Some(s) => {
                if !v.fits(s.ty) {
                    r.push(Why::Type);
                }
                if s.ty == Ty::F32 && s.enc == Enc::Diff {
                    r.push(Why::Encoding);
                }
                if ts < 0 || self.last(dev, sen).map_or(false, |l| ts <= l) {
                    r.push(Why::Order);
                }
            }
        }
        r
    }

    /// Applies the operation; returns the reasons for its refusal (none: must succeed).
    pub fn step(&mut self, op: &Op) -> Vec<Why> {
        match op {
            Op::W(d, s, t, v) => {
                let r = self.refusals(d, s, *t, *v);
                if r.is_empty() {
                    self.pts.entry((d, s)).or_default().push((*t, *v));
                }
                r
            }
            Op::M(d, t, ps) => {
                if self.closed {
                    return vec![Why::Closed];
                }
                if !self.sch.iter().any(|s| s.dev == *d) {
                    let mut r = vec![Why::Unknown];
                    if *t < 0 {
                        r.push(Why::Order);
                    }
                    return r;
                }
                for (s, v) in ps {
                    let r = self.refusals(d, s, *t, *v);
                    if !r.is_empty() {
                        return r;
                    }
                    self.pts.entry((d, s)).or_default().push((*t, *v));
                }
                vec![]
            }
            Op::Close => {
                self.closed = true;
                vec![]
            }
        }
    }

    pub fn fingerprint(&self) -> u64 {
        let mut h = H::new();
        for s in &self.sch {
            h.s(s.dev).s(s.sen).u(s.ty.code() as u64 * 100 + s.enc.code() as u64 * 10 + s.comp.code() as u64);
        }
        for ((d, s), p) in &self.pts {
            h.s(d).s(s);
            for (t, v) in p {
                h.u(*t as u64);
                v.hash(&mut h);
            }
        }
        h.u(self.closed as u64);
        h.get()
    }

    /// Non-empty series
    pub fn present(&self) -> Vec<(Name, Name)> {
        self.pts.iter().filter(|(_, p)| !p.is_empty()).map(|(k, _)| *k).collect()
    }
}

pub fn leak(s: String) -> Name {
    Box::leak(s.into_boxed_str())
}

pub fn show_ops(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::W(d, s, t, v) => format!("write({d:?},{s:?},{t},{v:?})"),
            Op::M(d, t, p) => format!("write_many({d:?},{t},{p:?})"),
            Op::Close => "close".to_string(),
        })
        .collect::<Vec<_>>()
        .join("; ")
}
