//! C25: the two ends of the sync service (client and processor) against each other and against an
//! independent encoding of the protocol.
use crate::ctx::{Ctx, H};
use crate::net::*;
use crate::oracle::R;
use std::cell::{Cell, RefCell};
use std::io::{Cursor, Read, Write};
use std::rc::Rc;
use thrift::protocol::*;
use thrift::server::TProcessor;
use thrift::{ApplicationError, ApplicationErrorKind, Error};
use tsfile_writer::sync::sync_sender::verif::protocol::*;

const NAMES: [&str; 8] =
    ["check", "startSync", "init", "syncDeletedFileName", "initSyncData", "syncData", "checkDataDigest", "endSync"];

/// A call with its arguments
#[derive(Clone, Debug, PartialEq)]
enum Call {
    Check([Option<String>; 3], Option<i64>),
    Start,
    Init(String),
    Deleted(String),
    InitData(String),
    Data(Vec<u8>),
    Digest(String),
    End,
}
use Call::*;

impl Call {
    fn new(m: usize, text: &str) -> Call {
        let s = text.to_string();
        match m {
            0 => Check([Some(s.clone()), Some(format!("{s}u")), Some(format!("v{s}"))], Some(text.len() as i64)),
            1 => Start,
            2 => Init(s),
            3 => Deleted(s),
            4 => InitData(s),
            5 => Data(s.into_bytes()),
            6 => Digest(s),
            _ => End,
        }
    }
    fn method(&self) -> usize {
        match self {
            Check(..) => 0,
            Start => 1,
            Init(_) => 2,
            Deleted(_) => 3,
            InitData(_) => 4,
            Data(_) => 5,
            Digest(_) => 6,
            End => 7,
        }
    }
    fn name(&self) -> &'static str {
        NAMES[self.method()]
    }
    /// what a receiver sees: a field that is not set has its default
    fn seen(&self) -> Call {
        match self {
            Check(s, n) => Check(s.clone().map(|x| Some(x.unwrap_or_default())), Some(n.unwrap_or(0))),
            c => c.clone(),
        }
    }
    /// the fields of the arguments
    fn fields(&self) -> Vec<(u8, i16, Vec<u8>)> {
        match self {
            Check(s, n) => {
                let mut f = vec![];
                for (id, x) in [1, 2, 4].into_iter().zip(s) {
                    if let Some(x) = x {
                        f.push((11, id, strb(x.as_bytes())));
                    }
                }
                if let Some(n) = n {
                    f.push((10, 3, n.to_be_bytes().to_vec()));
                }
                f.sort_by_key(|x| x.1);
                vec![(12, -1, record(&f))]
            }
            Start | End => vec![],
            Init(s) | Deleted(s) | InitData(s) | Digest(s) => vec![(11, 1, strb(s.as_bytes()))],
            Data(b) => vec![(11, 1, strb(b))],
        }
    }
    fn make<IP: TInputProtocol, OP: TOutputProtocol>(&self, c: &mut SyncServiceSyncClient<IP, OP>) -> thrift::Result<SyncStatus> {
        match self.clone() {
            Check([a, u, v], n) => c.check(ConfirmInfo::new(a, u, n, v)),
            Start => c.start_sync(),
            Init(s) => c.init(s),
            Deleted(s) => c.sync_deleted_file_name(s),
            InitData(s) => c.init_sync_data(s),
            Data(b) => c.sync_data(b),
            Digest(s) => c.check_data_digest(s),
            End => c.end_sync(),
        }
    }
}

fn record(f: &[(u8, i16, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    for (t, id, v) in f {
        o.extend(field(*t, *id, v));
    }
    o.push(0);
    o
}

/// What the handler does
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Status(i32, String),
    App(u8, String),
    Other(u8, String),
}
use Out::*;

const KINDS: [ApplicationErrorKind; 11] = [
    ApplicationErrorKind::Unknown,
    ApplicationErrorKind::UnknownMethod,
    ApplicationErrorKind::InvalidMessageType,
    ApplicationErrorKind::WrongMethodName,
    ApplicationErrorKind::BadSequenceId,
    ApplicationErrorKind::MissingResult,
    ApplicationErrorKind::InternalError,
    ApplicationErrorKind::ProtocolError,
    ApplicationErrorKind::InvalidTransform,
    ApplicationErrorKind::InvalidProtocol,
    ApplicationErrorKind::UnsupportedClientType,
];

struct Handler {
    next: RefCell<Out>,
    calls: RefCell<Vec<Call>>,
}

impl Handler {
    fn new(o: Out) -> Handler {
        Handler { next: RefCell::new(o), calls: RefCell::new(vec![]) }
    }
    fn go(&self, c: Call) -> thrift::Result<SyncStatus> {
        self.calls.borrow_mut().push(c);
        match self.next.borrow().clone() {
            Status(code, msg) => Ok(SyncStatus::new(code, msg)),
            App(k, m) => Err(Error::Application(ApplicationError::new(KINDS[k as usize], m))),
            Other(0, m) => Err(Error::User(m.into())),
            Other(1, m) => Err(Error::Protocol(thrift::ProtocolError::new(thrift::ProtocolErrorKind::InvalidData, m))),
            Other(_, m) => Err(Error::Transport(thrift::TransportError::new(thrift::TransportErrorKind::TimedOut, m))),
        }
    }
}

struct Shared(Rc<Handler>);

impl SyncServiceSyncHandler for Shared {
    fn handle_check(&self, i: ConfirmInfo) -> thrift::Result<SyncStatus> {
        self.0.go(Check([i.address, i.uuid, i.version], i.partition_interval))
    }
    fn handle_start_sync(&self) -> thrift::Result<SyncStatus> {
        self.0.go(Start)
    }
    fn handle_init(&self, s: String) -> thrift::Result<SyncStatus> {
        self.0.go(Init(s))
    }
    fn handle_sync_deleted_file_name(&self, s: String) -> thrift::Result<SyncStatus> {
        self.0.go(Deleted(s))
    }
    fn handle_init_sync_data(&self, s: String) -> thrift::Result<SyncStatus> {
        self.0.go(InitData(s))
    }
    fn handle_sync_data(&self, b: Vec<u8>) -> thrift::Result<SyncStatus> {
        self.0.go(Data(b))
    }
    fn handle_check_data_digest(&self, s: String) -> thrift::Result<SyncStatus> {
        self.0.go(Digest(s))
    }
    fn handle_end_sync(&self) -> thrift::Result<SyncStatus> {
        self.0.go(End)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Wire {
    Strict,
    Lax,
    Compact,
}
const WIRES: [Wire; 3] = [Wire::Strict, Wire::Lax, Wire::Compact];

/// Reads one byte array; whoever reads beyond it is told that it ends
struct Input(Rc<RefCell<Cursor<Vec<u8>>>>);
impl Read for Input {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().read(b)
    }
}
/// Hands over what was written at every flush
struct Output<'a>(Vec<u8>, Box<dyn FnMut(Vec<u8>) + 'a>);
impl Write for Output<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let b = std::mem::take(&mut self.0);
        (self.1)(b);
        Ok(())
    }
}

/// Lets a processor handle one message. Result, answer (as flushed), bytes left unread.
fn process(w: Wire, p: &dyn TProcessor, request: &[u8]) -> (thrift::Result<()>, Vec<u8>, usize) {
    let input = Rc::new(RefCell::new(Cursor::new(request.to_vec())));
    let answer = RefCell::new(vec![]);
    let r = {
        let o = Output(vec![], Box::new(|b| answer.borrow_mut().extend(b)));
        let i = Input(input.clone());
        match w {
            Wire::Compact => p.process(&mut TCompactInputProtocol::new(i), &mut TCompactOutputProtocol::new(o)),
            _ => p.process(&mut TBinaryInputProtocol::new(i, w == Wire::Strict), &mut TBinaryOutputProtocol::new(o, w == Wire::Strict)),
        }
    };
    let left = request.len() - input.borrow().position() as usize;
    (r, answer.into_inner(), left)
}

/// A client whose requests are answered by `server`; `f` makes the calls.
fn client<'a>(w: Wire, mut server: impl FnMut(Vec<u8>) -> Vec<u8> + 'a, f: impl FnOnce(&mut dyn FnMut(&Call) -> thrift::Result<SyncStatus>) -> R<()>) -> R<()> {
    let input = Rc::new(RefCell::new(Cursor::new(vec![])));
    let to = input.clone();
    let flushed = Rc::new(Cell::new(0));
    let count = flushed.clone();
    let o = Output(
        vec![],
        Box::new(move |b| {
            count.set(count.get() + 1);
            let a = server(b);
            let mut c = to.borrow_mut();
            let at = c.position() as usize;
            let rest = c.get_ref()[at..].to_vec();
            *c = Cursor::new([rest, a].concat());
        }),
    );
    let i = Input(input.clone());
    match w {
        Wire::Compact => {
            let mut c = SyncServiceSyncClient::new(TCompactInputProtocol::new(i), TCompactOutputProtocol::new(o));
            f(&mut |k| k.make(&mut c))
        }
        _ => {
            let mut c = SyncServiceSyncClient::new(
                TBinaryInputProtocol::new(i, w == Wire::Strict),
                TBinaryOutputProtocol::new(o, w == Wire::Strict),
            );
            f(&mut |k| k.make(&mut c))
        }
    }
}

fn agrees(out: &Out, r: &thrift::Result<SyncStatus>) -> R<()> {
    match (out, r) {
        (Status(c, m), Ok(s)) if s.code == *c && s.msg == *m => Ok(()),
        (App(k, m), Err(Error::Application(e))) if e.kind == KINDS[*k as usize] && e.message == *m => Ok(()),
        // the text is left to the library
        (Other(..), Err(Error::Application(e))) if e.kind == ApplicationErrorKind::Unknown => Ok(()),
        _ => Err(format!("the handler answered {out:?}, the call returned {r:?}")),
    }
}

/// Both ends: the calls over one connection, each with what the handler answers
fn both(ctx: &Ctx, w: Wire, calls: &[(Call, Out)]) -> R<()> {
    let h = Rc::new(Handler::new(Status(0, String::new())));
    let p = SyncServiceSyncProcessor::new(Shared(h.clone()));
    let trouble = RefCell::new(None);
    let note = &trouble;
    client(
        w,
        |b| {
            let (r, a, left) = process(w, &p, &b);
            if r.is_err() || left != 0 {
                note.borrow_mut().get_or_insert(format!("processing returned {r:?} with {left} bytes unread"));
            }
            a
        },
        |call| {
            for (n, (c, o)) in calls.iter().enumerate() {
                *h.next.borrow_mut() = o.clone();
                h.calls.borrow_mut().clear();
                let r = call(c);
                ctx.steps(1);
                let text = |m: String| format!("call {n} {}: {m}", c.name());
                let got = h.calls.borrow().clone();
                if got != [c.seen()] {
                    return Err(text(format!("the handler saw {got:?} instead of {:?}", c.seen())));
                }
                agrees(o, &r).map_err(text)?;
                if let Some(t) = note.borrow_mut().take() {
                    return Err(text(t));
                }
            }
            Ok(())
        },
    )
}

/// The bytes of a request, made independently
fn request(strict: bool, name: &str, seq: i32, args: &[(u8, i16, Vec<u8>)]) -> Vec<u8> {
    message(strict, name.as_bytes(), 1, seq, &record(args))
}

/// The request a client sends
fn sent(ctx: &Ctx, c: &Call, before: usize) -> R<()> {
    for strict in [true, false] {
        let seen = RefCell::new(vec![]);
        client(
            if strict { Wire::Strict } else { Wire::Lax },
            |b| {
                let (name, seq) = head(&b).map_or((vec![], 0), |h| (h.0, h.2));
                seen.borrow_mut().push((b, seq));
                message(strict, &name, 2, seq, &result(&status(7, b"m")))
            },
            |call| {
                for _ in 0..before {
                    call(&End).map_err(|e| format!("{e:?}"))?;
                }
                let r = call(c);
                ctx.steps(1);
                agrees(&Status(7, "m".into()), &r)
            },
        )?;
        let seen = seen.into_inner();
        if seen.len() != before + 1 {
            return Err(format!("{} messages", seen.len()));
        }
        let numbers: std::collections::HashSet<i32> = seen.iter().map(|s| s.1).collect();
        if numbers.len() != seen.len() {
            return Err(format!("calls with the same number: {:?}", seen.iter().map(|s| s.1).collect::<Vec<_>>()));
        }
        let want = request(strict, c.name(), seen[before].1, &c.fields());
        let got = decode(&seen[before].0).map_err(|e| format!("request: {e}"))?;
        let exp = decode(&want).map_err(|e| format!("harness: {e}"))?;
        let sorted = |b: &TV| match b.field(-1) {
            Some(TV::Struct(f)) => {
                let mut f = f.clone();
                f.sort_by_key(|x| x.0);
                Some(TV::Struct(f))
            }
            x => x.cloned(),
        };
        let fields = |b: &TV| matches!(b, TV::Struct(f) if f.len() <= 1);
        if (&got.name, got.kind, got.seq, got.rest) != (&exp.name, 1, exp.seq, 0) || sorted(&got.body) != sorted(&exp.body) || !fields(&got.body) {
            return Err(format!("sent {got:?} instead of {exp:?}"));
        }
    }
    Ok(())
}

/// What a receiver does with a request made independently. `want`: the call its handler sees
fn received(ctx: &Ctx, strict: bool, name: &str, seq: i32, bytes: &[u8], want: Option<&Call>, out: &Out) -> R<()> {
    let h = Rc::new(Handler::new(out.clone()));
    let p = SyncServiceSyncProcessor::new(Shared(h.clone()));
    let (r, a, left) = process(if strict { Wire::Strict } else { Wire::Lax }, &p, bytes);
    ctx.steps(1);
    let calls = h.calls.borrow().clone();
    let c = match want {
        None => {
            if !calls.is_empty() {
                return Err(format!("the handler was called: {calls:?}"));
            }
            if a.is_empty() {
                return if r.is_err() { Ok(()) } else { Err("no answer and no error".into()) };
            }
            let m = decode(&a).map_err(|e| format!("answer: {e}"))?;
            return if m.kind == 3 && m.name == name.as_bytes() && m.seq == seq && m.rest == 0 { Ok(()) } else { Err(format!("answered {m:?}")) };
        }
        Some(c) => c,
    };
    if calls != [c.clone()] {
        return Err(format!("the handler saw {calls:?} instead of {c:?}; {r:?}"));
    }
    if r.is_err() || left > 0 {
        return Err(format!("processing returned {r:?} with {left} bytes unread"));
    }
    let m = decode(&a).map_err(|e| format!("answer: {e}"))?;
    if m.name != name.as_bytes() || m.seq != seq || m.rest != 0 || strict != (a[0] & 0x80 != 0) {
        return Err(format!("answer {m:?}"));
    }
    let good = match out {
        Status(code, msg) => {
            let s = m.body.field(0);
            m.kind == 2
                && s.and_then(|s| s.field(1)) == Some(&TV::Num(8, *code as i64))
                && s.and_then(|s| s.field(2)) == Some(&TV::Bytes(msg.clone().into_bytes()))
        }
        App(k, msg) => {
            m.kind == 3
                && m.body.field(2) == Some(&TV::Num(8, *k as i64))
                && m.body.field(1) == Some(&TV::Bytes(msg.clone().into_bytes()))
        }
        Other(_, _) => m.kind == 3,
    };
    if good {
        Ok(())
    } else {
        Err(format!("the handler answered {out:?}, sent {m:?}"))
    }
}

/// What a client makes of an answer made independently. `want`: None: an error of any kind
fn answered(ctx: &Ctx, strict: bool, c: &Call, bytes: &[u8], want: Option<&Out>) -> R<()> {
    client(
        if strict { Wire::Strict } else { Wire::Lax },
        |_| bytes.to_vec(),
        |call| {
            let r = call(c);
            ctx.steps(1);
            match (want, &r) {
                (Some(o), _) => agrees(o, &r),
                (None, Err(_)) => Ok(()),
                (None, Ok(_)) => Err(format!("returned {r:?}")),
            }
        },
    )
}

/// fields of every type that no one knows
fn unknown() -> Vec<(u8, Vec<u8>)> {
    let mut v: Vec<(u8, Vec<u8>)> = vec![
        (2, vec![1]),
        (3, vec![0x80]),
        (4, 1.5f64.to_be_bytes().to_vec()),
        (6, vec![0x80, 0]),
        (8, vec![0x80, 0, 0, 1]),
        (10, vec![0xff; 8]),
        (11, strb(b"")),
        (11, strb(&[0x41; 300])),
        (12, vec![0]),
        (13, [&[8, 11][..], &i32b(1), &i32b(5), &strb(b"x")].concat()),
        (13, [&[8, 8][..], &i32b(0)].concat()),
        (14, [&[11][..], &i32b(2), &strb(b"x"), &strb(b"y")].concat()),
        (15, [&[10][..], &i32b(1), &[1; 8]].concat()),
        (15, [&[12][..], &i32b(0)].concat()),
    ];
    v.push((12, record(&[(8, 1, i32b(9)), (11, 2, strb(b"z")), (12, -1, record(&[(8, 1, i32b(4))]))])));
    v.push((15, [&[12][..], &i32b(2), &record(&[(8, 1, i32b(9))]), &record(&[])].concat()));
    v
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in permutations(n - 1) {
        for at in 0..n {
            let mut q = p.clone();
            q.insert(at, n - 1);
            v.push(q);
        }
    }
    v
}

fn texts(ctx: &Ctx) -> Vec<String> {
    let mut v: Vec<String> = (0..ctx.pick(600, 5000)).map(|n| "é".repeat(n / 2) + &"x".repeat(n % 2)).collect();
    v.extend([32767, 32768, 65535, 65536, 70000, 1 << 20].map(|n| "y".repeat(n)));
    v.extend(["\0", "a\0b", "\u{7f}", "\u{80}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{feff}", " ", "\n", "../x", "\u{202e}"].map(String::from));
    v
}

fn numbers(ctx: &Ctx) -> Vec<i64> {
    let mut v: Vec<i64> = (-300..300).collect();
    for k in 0..64 {
        for d in -2..=2i64 {
            v.push((1i64 << k).wrapping_add(d));
            v.push((-1i64 << k).wrapping_add(d));
        }
    }
    if !ctx.quick() {
        v.extend(-70000..70000);
    }
    v.sort();
    v.dedup();
    v
}

pub fn c25(ctx: &Ctx) {
    sequences(ctx);
    values(ctx);
    received_forms(ctx);
    answered_forms(ctx);
    broken_transports(ctx);
}

/// All sequences of calls over one connection
fn sequences(ctx: &Ctx) {
    let full: Vec<(usize, u8)> = (0..8).flat_map(|m| (0..3).map(move |o| (m, o))).collect();
    let plans = [(ctx.pick(3, 4), 3u8), (ctx.pick(4, 5), 2u8)];
    for w in WIRES {
        for (depth, outs) in plans {
            if w != Wire::Strict && outs == 2 {
                continue;
            }
            let letters: Vec<(usize, u8)> = full.iter().copied().filter(|l| l.1 < outs).collect();
            let n = letters.len().pow(depth as u32);
            ctx.part(&format!("sequences {w:?} {outs}"), n as u64);
            ctx.par(n, |i| {
                let mut x = i;
                let mut calls = vec![];
                let mut h = H::new();
                for k in 0..depth {
                    let (m, o) = letters[x % letters.len()];
                    x /= letters.len();
                    let c = Call::new(m, &format!("t{k}.{m}"));
                    let o = match o {
                        0 => Status([1, 0, -1, 200][k % 4] * (k as i32 + 1), format!("ok{k}")),
                        1 => App(((k * 3 + m) % 11) as u8, format!("app{k}")),
                        _ => Other((k % 3) as u8, format!("bad{k}")),
                    };
                    h.u(m as u64).s(&format!("{o:?}"));
                    calls.push((c, o));
                    ctx.state(h.u(w as u64).get());
                }
                ctx.case(|| format!("seq/{w:?}/{outs}/{depth}/{i}"), || both(ctx, w, &calls).map_err(|e| format!("{w:?} {calls:?}: {e}")));
            });
        }
    }
    // long connections
    for w in WIRES {
        let n = ctx.pick(2000, 70000);
        ctx.case(
            || format!("long/{w:?}"),
            || {
                let calls: Vec<(Call, Out)> = (0..n).map(|i| (Call::new(i * 5 % 8, &i.to_string()), if i % 7 == 3 { App(1, "x".into()) } else { Status(i as i32, i.to_string()) })).collect();
                both(ctx, w, &calls)
            },
        );
        ctx.distinct(n as u64);
    }
}

/// All values of arguments and answers
fn values(ctx: &Ctx) {
    let texts = texts(ctx);
    let numbers = numbers(ctx);
    ctx.par(texts.len(), |i| {
        let t = &texts[i];
        let cut: String = t.chars().take(20).collect();
        for m in 0..8 {
            let c = Call::new(m, t);
            let key = |k: &str| format!("text/{i}/{m}/{k}");
            let say = |e: String| format!("{} with {} bytes of text {cut:?}: {}", c.name(), t.len(), e.chars().take(600).collect::<String>());
            ctx.distinct(5);
            for w in WIRES {
                ctx.case(|| key(&format!("{w:?}")), || both(ctx, w, &[(c.clone(), Status(i as i32, t.clone())), (c.clone(), App((i % 11) as u8, t.clone()))]).map_err(say));
            }
            ctx.case(|| key("sent"), || sent(ctx, &c, 0).map_err(say));
            let b = request(true, c.name(), 5, &c.fields());
            ctx.case(|| key("received"), || received(ctx, true, c.name(), 5, &b, Some(&c.seen()), &Status(3, t.clone())).map_err(say));
        }
    });
    // every character
    let step = ctx.pick(256, 64);
    ctx.par(0x110000 / step, |i| {
        let t: String = (i * step..(i + 1) * step).filter_map(|c| char::from_u32(c as u32)).collect();
        ctx.distinct(8);
        for m in 0..8 {
            let c = Call::new(m, &t);
            ctx.case(|| format!("chars/{i}/{m}"), || both(ctx, Wire::Strict, &[(c.clone(), Status(i as i32, t.clone()))]));
        }
    });
    // every byte of data at every residue, and every size
    let sizes: Vec<usize> = (0..ctx.pick(700, 5000)).chain([65535, 65536, 65537, 1 << 20, (1 << 20) + 1]).collect();
    ctx.par(sizes.len(), |i| {
        let n = sizes[i];
        let c = Data((0..n).map(|k| (k * 37 + n) as u8).collect());
        ctx.distinct(4);
        let say = |e: String| format!("{n} bytes: {}", e.chars().take(600).collect::<String>());
        for w in WIRES {
            ctx.case(|| format!("data/{n}/{w:?}"), || both(ctx, w, &[(c.clone(), Status(1, String::new()))]).map_err(say));
        }
        ctx.case(|| format!("data/{n}/sent"), || sent(ctx, &c, 0).map_err(say));
    });
    // numbers: the interval and the code
    ctx.par(numbers.len(), |i| {
        let n = numbers[i];
        let c = Check([None, None, None], Some(n));
        for w in WIRES {
            let mut calls = vec![(c.clone(), Status(n as i32, String::new()))];
            for m in 0..8 {
                calls.push((Call::new(m, "x"), Status((n >> 32) as i32 ^ n as i32, n.to_string())));
            }
            ctx.distinct(9);
            ctx.case(|| format!("number/{n}/{w:?}"), || both(ctx, w, &calls));
        }
        ctx.case(|| format!("number/{n}/sent"), || sent(ctx, &c, 0));
        for m in 0..8 {
            let c = Call::new(m, "x");
            let b = request(false, c.name(), n as i32, &c.fields());
            ctx.case(
                || format!("number/{n}/received/{m}"),
                || received(ctx, false, c.name(), n as i32, &b, Some(&c.seen()), &Status(n as i32, "y".into())),
            );
        }
    });
    // every combination of fields of the confirmation
    let options: Vec<Option<String>> = vec![None, Some(String::new()), Some("a".into()), Some("é".repeat(200))];
    let ns = [None, Some(0), Some(1), Some(-1), Some(i64::MAX), Some(i64::MIN), Some(604800)];
    ctx.par(64 * ns.len(), |i| {
        let c = Check([options[i % 4].clone(), options[i / 4 % 4].clone(), options[i / 16 % 4].clone()], ns[i / 64]);
        ctx.distinct(4);
        for w in WIRES {
            ctx.case(|| format!("confirm/{i}/{w:?}"), || both(ctx, w, &[(c.clone(), Status(1, "m".into()))]));
        }
        ctx.case(|| format!("confirm/{i}/sent"), || sent(ctx, &c, 0));
    });
    // kinds of errors, and the number of a call
    for m in 0..8 {
        for k in 0..11u8 {
            for w in WIRES {
                ctx.distinct(1);
                let calls = [(Call::new(m, "a"), App(k, format!("e{k}"))), (Call::new(m, "b"), Status(1, "m".into())), (Call::new(7 - m, "c"), Other(k % 3, "o".into())), (Call::new(m, "d"), Status(2, "n".into()))];
                ctx.case(|| format!("kind/{m}/{k}/{w:?}"), || both(ctx, w, &calls));
            }
        }
        for before in 0..ctx.pick(40, 400) {
            ctx.distinct(1);
            ctx.case(|| format!("nth/{m}/{before}"), || sent(ctx, &Call::new(m, "a"), before));
        }
    }
}

const IDS: [i16; 9] = [0, -1, 1, 2, 5, -2, 100, i16::MAX, i16::MIN];

/// Requests in every form another implementation may send
fn received_forms(ctx: &Ctx) {
    let extra = unknown();
    let outs = [Status(1, "m".into()), App(6, "e".into()), Other(0, "o".into())];
    for m in 0..8 {
        let c = Call::new(m, "abc");
        let name = c.name();
        let f = c.fields();
        for strict in [true, false] {
            let go = |key: String, b: Vec<u8>, want: Option<&Call>, out: &Out| {
                ctx.distinct(1);
                ctx.case(
                    || format!("request/{m}/{strict}/{key}"),
                    || received(ctx, strict, name, 9, &b, want, out).map_err(|e| format!("{name} ({key}), {} bytes {:02x?}: {e}", b.len(), &b[..b.len().min(80)])),
                );
            };
            // unknown fields before and after the argument
            for (k, (t, v)) in extra.iter().enumerate() {
                for id in IDS.into_iter().filter(|id| f.iter().all(|x| x.1 != *id)) {
                    for at in 0..=f.len() {
                        let mut g = f.clone();
                        g.insert(at, (*t, id, v.clone()));
                        go(format!("unknown.{k}.{id}.{at}"), request(strict, name, 9, &g), Some(&c), &outs[k % 3]);
                        for (k2, (t2, v2)) in extra.iter().enumerate().filter(|_| id == 2) {
                            let mut g = g.clone();
                            g.push((*t2, -7, v2.clone()));
                            go(format!("unknowns.{k}.{at}.{k2}"), request(strict, name, 9, &g), Some(&c), &outs[0]);
                        }
                    }
                    // the argument is missing
                    if !f.is_empty() {
                        go(format!("missing.{k}.{id}"), request(strict, name, 9, &[(*t, id, v.clone())]), None, &outs[0]);
                    }
                }
            }
            if !f.is_empty() {
                go("missing".into(), request(strict, name, 9, &[]), None, &outs[0]);
            }
            // cut
            let b = request(strict, name, 9, &f);
            for n in 0..b.len() {
                go(format!("cut.{n}"), b[..n].to_vec(), None, &outs[0]);
            }
        }
        // names that are not quite those of methods
        let mut wrong: Vec<String> = (0..name.len()).map(|n| name[..n].to_string()).collect();
        wrong.extend([name.to_uppercase(), name.to_lowercase(), format!("{name} "), format!("{name}\0"), format!(" {name}"), format!("{name}{name}"), String::new()]);
        for n in 0..name.len() {
            for x in ['x', 'S', '_', 'é'] {
                wrong.push(format!("{}{x}{}", &name[..n], &name[n..]));
                wrong.push(format!("{}{x}{}", &name[..n], &name[n + 1..]));
            }
        }
        for (i, wn) in wrong.iter().enumerate() {
            if NAMES.contains(&wn.as_str()) {
                continue;
            }
            ctx.distinct(1);
            let b = request(true, wn, i as i32, &f);
            ctx.case(|| format!("name/{m}/{i}"), || {
                received(ctx, true, wn, i as i32, &b, None, &outs[0]).map_err(|e| format!("method {wn:?}: {e}"))
            });
        }
    }
    // the confirmation: fields in all orders, any of them missing, unknown ones in between
    let all: Vec<(u8, i16, Vec<u8>)> = vec![(11, 1, strb(b"ad")), (11, 2, strb(b"uu")), (10, 3, 77i64.to_be_bytes().to_vec()), (11, 4, strb(b"ve"))];
    for set in 0..16usize {
        let chosen: Vec<_> = (0..4).filter(|k| set >> k & 1 == 1).map(|k| all[k].clone()).collect();
        let pick = |k: usize, s: &str| Some(if set >> k & 1 == 1 { s.to_string() } else { String::new() });
        let want = Check([pick(0, "ad"), pick(1, "uu"), pick(3, "ve")], Some(if set & 4 == 4 { 77 } else { 0 }));
        for (pi, perm) in permutations(chosen.len()).iter().enumerate() {
            let order: Vec<_> = perm.iter().map(|k| chosen[*k].clone()).collect();
            let mut forms = vec![order.clone()];
            for (k, (t, v)) in extra.iter().enumerate() {
                for at in 0..=order.len() {
                    let mut g = order.clone();
                    g.insert(at, (*t, [5, 0, -1, 9][k % 4], v.clone()));
                    forms.push(g);
                }
            }
            for (i, g) in forms.iter().enumerate() {
                ctx.distinct(1);
                let b = request(true, "check", 1, &[(12, -1, record(g))]);
                ctx.case(|| format!("info/{set}/{pi}/{i}"), || received(ctx, true, "check", 1, &b, Some(&want), &outs[0]).map_err(|e| format!("{g:?}: {e}")));
            }
        }
    }
}

/// Answers in every form another implementation may send
fn answered_forms(ctx: &Ctx) {
    let extra = unknown();
    // the number of the first call of a connection
    let number = Cell::new(1);
    let _ = client(
        Wire::Strict,
        |b| {
            number.set(head(&b).map_or(1, |h| h.2));
            vec![]
        },
        |call| {
            let _ = call(&End);
            Ok(())
        },
    );
    let first = number.get();
    let st = vec![(8u8, 1i16, i32b(-5)), (11, 2, strb("mé".as_bytes()))];
    let good = Status(-5, "mé".into());
    for m in 0..8 {
        let c = Call::new(m, "abc");
        let name = c.name();
        for strict in [true, false] {
            let go = |key: String, b: Vec<u8>, want: Option<&Out>| {
                ctx.distinct(1);
                ctx.case(
                    || format!("answer/{m}/{strict}/{key}"),
                    || answered(ctx, strict, &c, &b, want).map_err(|e| format!("{name} ({key}), answer {:02x?}: {e}", &b[..b.len().min(80)])),
                );
            };
            let reply = |f: &[(u8, i16, Vec<u8>)]| message(strict, name.as_bytes(), 2, first, &record(f));
            let plain = reply(&[(12, 0, record(&st))]);
            go("plain".into(), plain.clone(), Some(&good));
            go("swapped".into(), reply(&[(12, 0, record(&[st[1].clone(), st[0].clone()]))]), Some(&good));
            for (k, (t, v)) in extra.iter().enumerate() {
                for id in [1i16, 2, 5, -1, -2, 100, i16::MAX, i16::MIN] {
                    let x = (*t, id, v.clone());
                    go(format!("before.{k}.{id}"), reply(&[x.clone(), (12, 0, record(&st))]), Some(&good));
                    go(format!("after.{k}.{id}"), reply(&[(12, 0, record(&st)), x.clone()]), Some(&good));
                    go(format!("only.{k}.{id}"), reply(&[x]), None);
                }
                for id in [0i16, 3, -1, 100, i16::MIN] {
                    for at in 0..=2 {
                        let mut g = st.clone();
                        g.insert(at, (*t, id, v.clone()));
                        go(format!("within.{k}.{id}.{at}"), reply(&[(12, 0, record(&g))]), Some(&good));
                    }
                    go(format!("nocode.{k}.{id}"), reply(&[(12, 0, record(&[st[1].clone(), (*t, id, v.clone())]))]), None);
                    go(format!("notext.{k}.{id}"), reply(&[(12, 0, record(&[st[0].clone(), (*t, id, v.clone())]))]), None);
                }
            }
            go("empty".into(), reply(&[]), None);
            go("nothing in it".into(), reply(&[(12, 0, record(&[]))]), None);
            go("no text".into(), reply(&[(12, 0, record(&st[..1]))]), None);
            go("no code".into(), reply(&[(12, 0, record(&st[1..]))]), None);
            for n in 0..plain.len() {
                go(format!("cut.{n}"), plain[..n].to_vec(), None);
            }
            let body = record(&[(12, 0, record(&st))]);
            for kind in 0..=255u8 {
                if kind != 2 {
                    go(format!("type.{kind}"), message(strict, name.as_bytes(), kind, first, &body), None);
                }
            }
            for by in [-1, 1, -2, 2, 255, 256, 65536, 1 << 24, i32::MAX, i32::MIN, i32::MIN + 1] {
                let seq = first.wrapping_add(by);
                go(format!("number.{seq}"), message(strict, name.as_bytes(), 2, seq, &body), None);
                go(format!("number.{seq}.x"), message(strict, name.as_bytes(), 3, seq, &record(&[(11, 1, strb(b"e")), (8, 2, i32b(1))])), None);
            }
            for other in NAMES.iter().filter(|n| **n != name).map(|n| n.to_string()).chain([name.to_uppercase() + "x", format!("{name} "), format!("{name}2"), name[1..].to_string(), String::new()]) {
                go(format!("name.{other}"), message(strict, other.as_bytes(), 2, first, &body), None);
            }
            for k in 0..11i32 {
                for text in ["", "why", "é"] {
                    let f = vec![(11u8, 1i16, strb(text.as_bytes())), (8u8, 2i16, i32b(k))];
                    let want = App(k as u8, text.into());
                    go(format!("exception.{k}.{text}"), message(strict, name.as_bytes(), 3, first, &record(&f)), Some(&want));
                    go(format!("exception.{k}.{text}.swapped"), message(strict, name.as_bytes(), 3, first, &record(&[f[1].clone(), f[0].clone()])), Some(&want));
                }
                go(format!("exception.{k}.no text"), message(strict, name.as_bytes(), 3, first, &record(&[(8, 2, i32b(k))])), None);
            }
            for k in [-1, 11, 1000, i32::MIN, i32::MAX] {
                go(format!("exception.{k}"), message(strict, name.as_bytes(), 3, first, &record(&[(11, 1, strb(b"t")), (8, 2, i32b(k))])), None);
            }
            go("exception.empty".into(), message(strict, name.as_bytes(), 3, first, &[0]), None);
            go("exception.cut".into(), message(strict, name.as_bytes(), 3, first, &[]), None);
        }
    }
}

/// A transport that fails at its `at`th request (once, or from then on), or moves one byte at a time
struct Flaky {
    data: Vec<u8>,
    pos: usize,
    out: Rc<RefCell<Vec<u8>>>,
    requests: Rc<Cell<usize>>,
    at: usize,
    lasting: bool,
    kind: std::io::ErrorKind,
    tiny: bool,
}
impl Flaky {
    fn step(&self) -> std::io::Result<()> {
        let n = self.requests.get();
        self.requests.set(n + 1);
        if n == self.at || (self.lasting && n > self.at) {
            return Err(std::io::Error::from(self.kind));
        }
        Ok(())
    }
}
impl Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.step()?;
        let n = b.len().min(self.data.len() - self.pos).min(if self.tiny { 1 } else { usize::MAX });
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Flaky {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.step()?;
        let n = b.len().min(if self.tiny { 1 } else { usize::MAX });
        self.out.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        // nobody calls an interrupted flush again
        match self.step() {
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Ok(()),
            r => r,
        }
    }
}

struct Ends {
    input: Flaky,
    output: Flaky,
    sent: Rc<RefCell<Vec<u8>>>,
    /// requests to the transport, reading and writing
    counts: [Rc<Cell<usize>>; 2],
}

fn ends(data: &[u8], fail: Option<(usize, usize)>, lasting: bool, kind: std::io::ErrorKind, tiny: bool) -> Ends {
    let sent = Rc::new(RefCell::new(vec![]));
    let counts = [Rc::new(Cell::new(0)), Rc::new(Cell::new(0))];
    let at = |side: usize| fail.map_or(usize::MAX, |(s, n)| if s == side { n } else { usize::MAX });
    let mk = |side: usize| Flaky {
        data: data.to_vec(),
        pos: 0,
        out: sent.clone(),
        requests: counts[side].clone(),
        at: at(side),
        lasting,
        kind,
        tiny,
    };
    Ends { input: mk(0), output: mk(1), sent: sent.clone(), counts: counts.clone() }
}

/// Every request to the transport fails, at both ends: what cannot be sent or read is an error
fn broken_transports(ctx: &Ctx) {
    use std::io::ErrorKind::{BrokenPipe, ConnectionReset, Interrupted, TimedOut, UnexpectedEof, WouldBlock};
    let kinds = [BrokenPipe, TimedOut, WouldBlock, std::io::ErrorKind::Other, ConnectionReset, UnexpectedEof];
    let call_of = |m: usize| Call::new(m, ["", "text", "\u{e9}\u{1f600}"][m % 3]);
    ctx.part("failing requests to the transport", 8 * 3 * kinds.len() as u64 * 2);
    for m in 0..8 {
        for (oi, o) in [Status(1, "fine".into()), App(3, "no".into()), Other(1, "bad".into())].into_iter().enumerate() {
            // the client; the answer is there in any case
            let answer = match &o {
                Status(c, t) => message(true, NAMES[m].as_bytes(), 2, 1, &result(&status(*c, t.as_bytes()))),
                App(k, t) => exception(NAMES[m], 1, *k as i32, t),
                Other(_, t) => exception(NAMES[m], 1, 0, t),
            };
            let request = request(true, NAMES[m], 1, &call_of(m).fields());
            let run = |side: u8, fail, lasting, kind, tiny| -> (R<thrift::Result<Option<SyncStatus>>>, Vec<u8>, [usize; 2], Vec<Call>) {
                let h = Rc::new(Handler::new(o.clone()));
                let e = ends(if side == 0 { &answer } else { &request }, fail, lasting, kind, tiny);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    if side == 0 {
                        let mut c = SyncServiceSyncClient::new(TBinaryInputProtocol::new(e.input, true), TBinaryOutputProtocol::new(e.output, true));
                        call_of(m).make(&mut c).map(Some)
                    } else {
                        let p = SyncServiceSyncProcessor::new(Shared(h.clone()));
                        p.process(&mut TBinaryInputProtocol::new(e.input, true), &mut TBinaryOutputProtocol::new(e.output, true)).map(|_| None)
                    }
                }))
                .map_err(|p| format!("panics: {}", crate::ctx::panic_text(&*p)));
                let calls = h.calls.borrow().clone();
                let sent = e.sent.borrow().clone();
                (r, sent, [e.counts[0].get(), e.counts[1].get()], calls)
            };
            for side in [0u8, 1] {
                let who = ["client", "processor"][side as usize];
                let (whole, bytes, n, _) = run(side, None, false, Interrupted, false);
                ctx.case(|| format!("transport/{who}/{m}/{oi}/whole"), || {
                    let fine = match &whole {
                        Ok(Ok(Some(s))) => agrees(&o, &Ok(s.clone())).is_ok(),
                        Ok(Ok(None)) => true,
                        Ok(Err(Error::Application(_))) => side == 0 && oi > 0,
                        _ => false,
                    };
                    if !fine {
                        return Err(format!("{who}, undisturbed: {whole:?}"));
                    }
                    // byte by byte, and interrupted at every request
                    let (r, b, _, _) = run(side, None, false, Interrupted, true);
                    if format!("{r:?}") != format!("{whole:?}") || b != bytes {
                        return Err(format!("{who}, byte by byte: {r:?} instead of {whole:?}, or other bytes"));
                    }
                    for s in 0..2 {
                        for k in 0..n[s] {
                            let (r, b, _, _) = run(side, Some((s, k)), false, Interrupted, false);
                            if format!("{r:?}") != format!("{whole:?}") || b != bytes {
                                return Err(format!("{who}, interrupted at request {k} of side {s}: {r:?} instead of {whole:?}, or other bytes"));
                            }
                        }
                    }
                    Ok(())
                });
                for (ki, kind) in kinds.into_iter().enumerate() {
                    for lasting in [false, true] {
                        for s in 0..2 {
                            for k in 0..n[s] {
                                ctx.steps(1);
                                ctx.state(H::new().u(m as u64).u(oi as u64).u(side as u64).u(ki as u64).u(lasting as u64).u(s as u64).u(k as u64).u(97).get());
                                ctx.case(|| format!("transport/{who}/{m}/{oi}/{ki}/{lasting}/{s}/{k}"), || {
                                    let (r, b, _, calls) = run(side, Some((s, k)), lasting, kind, false);
                                    let what = || format!("{who} of {}, {} {k} fails ({kind:?}, lasting: {lasting})", NAMES[m], ["reading", "writing"][s]);
                                    match r {
                                        Err(p) => Err(format!("{}: {p}", what())),
                                        // told to the caller as an application error, or not (fully) told
                                        Ok(r) if side == 1 => {
                                            if calls.len() != s {
                                                return Err(format!("{}: {} handlers called", what(), calls.len()));
                                            }
                                            match r {
                                                Ok(_) if s == 0 && head(&b).map_or(true, |h| h.1 != 3) => Err(format!("{}: no error, and answered {b:02x?}", what())),
                                                Ok(_) if s == 1 && lasting => Err(format!("{}: success", what())),
                                                _ => Ok(()),
                                            }
                                        }
                                        Ok(Ok(x)) => Err(format!("{}: success ({x:?}) although it could not be {}", what(), ["read", "sent"][s])),
                                        Ok(Err(Error::Application(e))) if side == 0 && e.message == "no" => {
                                            Err(format!("{}: the error of the handler although it was not {}", what(), ["read", "sent"][s]))
                                        }
                                        Ok(Err(_)) => Ok(()),
                                    }
                                });
                            }
                        }
                    }
                }
            }
        }
    }
}

/// An error as an answer, made independently
fn exception(name: &str, seq: i32, kind: i32, text: &str) -> Vec<u8> {
    message(true, name.as_bytes(), 3, seq, &record(&[(11, 1, strb(text.as_bytes())), (8, 2, i32b(kind).to_vec())]))
}
