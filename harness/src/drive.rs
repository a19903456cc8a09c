//! Drives the real writer: sinks with faults, execution of histories, result classification.
use crate::ctx::panic_text;
use crate::model::*;
use std::io::{self, ErrorKind, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use tsfile_writer::writer::errors::TsFileError;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::tsfile_writer::{DataPoint, TsFileWriter};
use tsfile_writer::writer::{verif, PositionedWrite, Schema, WriteWrapper};

// ---------------------------------------------------------------- sink

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// a write never crosses these stream offsets: it stops short there
    pub cuts: Vec<usize>,
    /// no write takes more than this many bytes (0: no limit)
    pub max: usize,
    /// these write requests (by number) are interrupted first
    pub eintr: Vec<usize>,
    /// this write request fails ...
    pub fail_at: Option<usize>,
    /// ... and so do all later ones
    pub permanent: bool,
    pub kind: Option<ErrorKind>,
    /// the failing request answers Ok(0) instead of an error
    pub zero: bool,
    /// the disk is full at this stream offset
    pub full_at: Option<usize>,
    /// a write stops short at this stream offset, the next one fails, once or (with `permanent`) always
    pub break_at: Option<usize>,
    /// this flush request fails (with `permanent`, all later ones do, too)
    pub flush_at: Option<usize>,
}

#[derive(Default)]
pub struct SinkState {
    pub bytes: Vec<u8>,
    pub requests: usize,
    pub failures: usize,
    pub shorts: usize,
    pub flushes: usize,
    pub plan: Plan,
    eintr_done: Option<usize>,
}

#[derive(Clone, Default)]
pub struct Sink(pub Arc<Mutex<SinkState>>);

impl Sink {
    pub fn new() -> Sink {
        Sink::default()
    }
    pub fn with(plan: Plan) -> Sink {
        let s = Sink::default();
        s.0.lock().unwrap().plan = plan;
        s
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0.lock().unwrap().bytes.clone()
    }
    pub fn take(&self) -> Vec<u8> {
        std::mem::take(&mut self.0.lock().unwrap().bytes)
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().bytes.len()
    }
    pub fn failures(&self) -> usize {
        self.0.lock().unwrap().failures
    }
    pub fn flushes(&self) -> usize {
        self.0.lock().unwrap().flushes
    }
    pub fn requests(&self) -> usize {
        self.0.lock().unwrap().requests
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let s = &mut *self.0.lock().unwrap();
        if buf.is_empty() {
            return Ok(0);
        }
        let k = s.requests;
        if s.plan.eintr.contains(&k) && s.eintr_done != Some(k) {
            s.eintr_done = Some(k);
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        s.requests += 1;
        if let Some(f) = s.plan.fail_at {
            if k == f || (k > f && s.plan.permanent) {
                s.failures += 1;
                if s.plan.zero {
                    return Ok(0);
                }
                return Err(io::Error::from(s.plan.kind.unwrap_or(ErrorKind::Other)));
            }
        }
        let o = s.bytes.len();
        let mut n = buf.len();
        if let Some(f) = s.plan.break_at {
            if o == f {
                if !s.plan.permanent {
                    s.plan.break_at = None;
                }
                s.failures += 1;
                return Err(io::Error::from(s.plan.kind.unwrap_or(ErrorKind::Other)));
            }
            if o < f {
                n = n.min(f - o);
            }
        }
        if s.plan.max > 0 {
            n = n.min(s.plan.max);
        }
        for c in &s.plan.cuts {
            if *c > o && *c < o + n {
                n = *c - o;
            }
        }
        if let Some(f) = s.plan.full_at {
            if o + n > f {
                n = f.saturating_sub(o);
                if n == 0 {
                    s.failures += 1;
                    return Err(io::Error::from(s.plan.kind.unwrap_or(ErrorKind::StorageFull)));
                }
            }
        }
        if n < buf.len() {
            s.shorts += 1;
        }
        s.bytes.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let s = &mut *self.0.lock().unwrap();
        let k = s.flushes;
        s.flushes += 1;
        match s.plan.flush_at {
            Some(f) if k == f || (k > f && s.plan.permanent) => {
                s.failures += 1;
                Err(io::Error::from(s.plan.kind.unwrap_or(ErrorKind::Other)))
            }
            _ => Ok(()),
        }
    }
}

// ---------------------------------------------------------------- results

#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    Ok,
    Unknown,
    Type,
    Encoding,
    Order,
    Io,
    Other(String),
    Panic(String),
}

impl Res {
    pub fn is_ok(&self) -> bool {
        *self == Res::Ok
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Res::Panic(_))
    }
    pub fn short(&self) -> &'static str {
        match self {
            Res::Ok => "ok",
            Res::Unknown => "illegal-state",
            Res::Type => "wrong-type",
            Res::Encoding => "encoding",
            Res::Order => "out-of-order",
            Res::Io => "io",
            Res::Other(_) => "other",
            Res::Panic(_) => "panic",
        }
    }
}

pub fn res(r: Result<(), TsFileError>) -> Res {
    match r {
        Ok(()) => Res::Ok,
        Err(TsFileError::IllegalState { .. }) => Res::Unknown,
        Err(TsFileError::WrongTypeForSeries) => Res::Type,
        Err(TsFileError::Encoding) => Res::Encoding,
        Err(TsFileError::OutOfOrderData) => Res::Order,
        Err(TsFileError::IoError { .. }) => Res::Io,
        Err(e) => Res::Other(format!("{e:?}")),
    }
}

/// Does the result agree with what the model says (empty: must succeed)?
pub fn agrees(r: &Res, why: &[Why]) -> bool {
    if why.is_empty() {
        return r.is_ok();
    }
    match r {
        Res::Ok | Res::Panic(_) => false,
        Res::Unknown => why.contains(&Why::Unknown) || why.contains(&Why::Closed),
        Res::Type => why.contains(&Why::Type),
        Res::Encoding => why.contains(&Why::Encoding),
        Res::Order => why.contains(&Why::Order),
        Res::Io | Res::Other(_) => why.contains(&Why::Closed),
    }
}

pub trait CloseResult {
    fn res(self) -> Res;
}
impl CloseResult for () {
    fn res(self) -> Res {
        Res::Ok
    }
}
impl CloseResult for Result<(), TsFileError> {
    fn res(self) -> Res {
        res(self)
    }
}

// ---------------------------------------------------------------- schema, operations

pub fn build_schema(sch: &[Ser]) -> Schema<'static> {
    let mut devs: Vec<Name> = vec![];
    for s in sch {
        if !devs.contains(&s.dev) {
            devs.push(s.dev);
        }
    }
    let mut b = TsFileSchemaBuilder::new();
    for d in devs {
        let mut db = DeviceBuilder::new();
        for s in sch.iter().filter(|s| s.dev == d) {
            db.add(s.sen, s.ty.api(), s.enc.api(), s.comp.api());
        }
        b.add(d, db.build());
    }
    b.build()
}

/// For large schemas: series of one device are adjacent
pub fn build_schema_sorted(sch: &[Ser]) -> Schema<'static> {
    let mut b = TsFileSchemaBuilder::new();
    let mut i = 0;
    while i < sch.len() {
        let mut db = DeviceBuilder::new();
        let d = sch[i].dev;
        while i < sch.len() && sch[i].dev == d {
            db.add(sch[i].sen, sch[i].ty.api(), sch[i].enc.api(), sch[i].comp.api());
            i += 1;
        }
        b.add(d, db.build());
    }
    b.build()
}

pub fn guard(f: impl FnOnce() -> Res) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => Res::Panic(panic_text(&*p)),
    }
}

pub type W = TsFileWriter<'static, WriteWrapper<Sink>>;

pub fn open(schema: Schema<'static>, sink: &Sink, degree: Option<usize>) -> Result<W, Res> {
    let sink = sink.clone();
    match catch_unwind(AssertUnwindSafe(|| verif::writer_on(schema, sink, degree))) {
        Ok(Ok(w)) => Ok(w),
        Ok(Err(e)) => Err(res(Err(e))),
        Err(p) => Err(Res::Panic(panic_text(&*p))),
    }
}

pub fn apply<T: PositionedWrite>(w: &mut TsFileWriter<'static, T>, op: &Op) -> Res {
    guard(|| match op {
        Op::W(d, s, t, v) => res(w.write(d, s, *t, v.api())),
        Op::M(d, t, ps) => {
            let v: Vec<DataPoint<'static>> =
                ps.iter().map(|(s, v)| DataPoint::new(s, v.api())).collect();
            // the caller may give any iterator: one that knows its length, or not, or claims little
            match t.rem_euclid(3) {
                0 => res(w.write_many(d, *t, v)),
                1 => res(w.write_many(d, *t, v.into_iter().filter(|_| true))),
                _ => {
                    let mut v = v.into_iter();
                    res(w.write_many(d, *t, std::iter::from_fn(move || v.next())))
                }
            }
        }
        Op::Close => w.close().res(),
    })
}

/// Runs all operations; stops after a panic. Returns the results and the bytes.
pub fn run(sch: &[Ser], ops: &[Op], sink: &Sink, degree: Option<usize>) -> Vec<Res> {
    let mut w = match open(build_schema(sch), sink, degree) {
        Ok(w) => w,
        Err(r) => return vec![r],
    };
    let mut out = Vec::with_capacity(ops.len());
    for o in ops {
        let r = apply(&mut w, o);
        let p = r.is_panic();
        out.push(r);
        if p {
            break;
        }
    }
    out
}

/// The file of a history that must succeed throughout.
pub fn file_of(sch: &[Ser], ops: &[Op]) -> Result<Vec<u8>, String> {
    let sink = Sink::new();
    let mut ops = ops.to_vec();
    if ops.last() != Some(&Op::Close) {
        ops.push(Op::Close);
    }
    let rs = run(sch, &ops, &sink, None);
    for (i, r) in rs.iter().enumerate() {
        if !r.is_ok() {
            return Err(format!("operation {} ({}) of an all-valid history: {r:?}", i, show_ops(&ops[i.min(ops.len() - 1)..=i.min(ops.len() - 1)])));
        }
    }
    Ok(sink.take())
}
