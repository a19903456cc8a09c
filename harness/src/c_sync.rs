//! C20 handshake, C21 identity, C22 transfer.
use crate::c_misc::{all_configs, check_log};
use crate::c_write::grid;
use crate::ctx::{panic_text, Ctx, H};
use crate::drive::build_schema;
use crate::hist::configs;
use crate::model::*;
use crate::net::*;
use crate::oracle::*;
use crate::sys::*;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::os::unix::fs::{FileTypeExt, MetadataExt};
use std::sync::{Arc, Mutex};
use tsfile_writer::sync::sync_sender::verif::{sync, write_mlog, TcpSyncSender};
use tsfile_writer::sync::sync_sender::SyncSender;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Expect {
    Ok,
    Err,
    /// anything but a panic
    Any,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Ok,
    Err(String),
    Panic(String),
}

fn agree(o: &Out, e: Expect) -> R<()> {
    match (o, e) {
        (Out::Panic(p), _) => Err(format!("panics: {p}")),
        (Out::Ok, Expect::Err) => Err("reports success".into()),
        (Out::Err(x), Expect::Ok) => Err(format!("fails ({x})")),
        _ => Ok(()),
    }
}

fn open(addr: &str, local: Option<&str>, uuid: Option<&str>) -> Result<TcpSyncSender, Out> {
    match catch_unwind(AssertUnwindSafe(|| SyncSender::new(addr, local, uuid))) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) => Err(Out::Err(format!("{e:?}"))),
        Err(p) => Err(Out::Panic(panic_text(&*p))),
    }
}

const UUID: &str = "0123456789abcdef0123456789abcdef";

fn seq_of(frame: &[u8]) -> i32 {
    head(frame).map_or(-99, |h| h.2)
}

// ---------------------------------------------------------------- answers

type Make = Box<dyn Fn(&[u8], i32) -> Vec<u8> + Send + Sync>;

/// An answer of the server: bytes (given name and sequence number of the request), how it goes on,
/// and what the client must make of it
pub struct Kind {
    label: String,
    make: Make,
    then: Then,
    split: bool,
    want: Expect,
}

impl Kind {
    /// `last`: no further request can follow
    fn answer(&self, name: &[u8], seq: i32, last: bool) -> Answer {
        let bytes = (self.make)(name, seq);
        let ok = demand(self, name, seq) == Expect::Ok;
        let mut then = self.then;
        // a client that waits for the rest of an answer must not wait for ever
        if then == Then::Next && !ok && (last || bytes.len() < 4 || decode(&bytes[4..]).is_err()) {
            then = Then::Fin;
        }
        Answer { bytes, split: self.split, then, brief: !ok }
    }
}

fn kind(label: impl ToString, want: Expect, make: impl Fn(&[u8], i32) -> Vec<u8> + Send + Sync + 'static) -> Kind {
    Kind { label: label.to_string(), make: Box::new(make), then: Then::Next, split: false, want }
}

fn code_kind(code: i32, msg: &'static [u8], split: bool) -> Kind {
    let want = match (code, std::str::from_utf8(msg)) {
        (_, Err(_)) => Expect::Err,
        (1, _) => Expect::Ok,
        _ => Expect::Err,
    };
    let mut k = kind(format!("status {code} {:?}", String::from_utf8_lossy(&msg[..msg.len().min(12)])), want, move |n, s| {
        framed(&message(false, n, 2, s, &result(&status(code, msg))))
    });
    k.split = split;
    k
}

/// What the client must make of this frame as the answer to a request, by the protocol
pub fn classify(frame: &[u8], name: &[u8], seq: i32) -> Expect {
    let (n, kind, s, _) = match head(frame) {
        Ok(h) => h,
        Err(_) => return Expect::Err,
    };
    if n != name || s != seq || kind != 2 {
        return Expect::Err;
    }
    if !lenient_accept(frame) {
        return Expect::Err;
    }
    // accepted by a strict reader too?
    if let Ok(m) = decode(frame) {
        if let (0, true, TV::Struct(f)) = (m.rest, m.body.clean(), &m.body) {
            let r: Vec<&TV> = f.iter().filter(|x| x.0 == 0).map(|x| &x.1).collect();
            if let [TV::Struct(st)] = r[..] {
                let c: Vec<&TV> = st.iter().filter(|x| x.0 == 1).map(|x| &x.1).collect();
                let t: Vec<&TV> = st.iter().filter(|x| x.0 == 2).map(|x| &x.1).collect();
                if let ([TV::Num(8, 1)], [TV::Bytes(_)]) = (&c[..], &t[..]) {
                    return Expect::Ok;
                }
            }
        }
    }
    Expect::Any
}

/// Values of every type of the protocol, with their type
fn any_values() -> Vec<(u8, Vec<u8>)> {
    let st = [field(11, 7, &strb(b"x")), field(15, 8, &[&[8u8][..], &i32b(2), &i32b(1), &i32b(2)].concat()), vec![0]].concat();
    vec![
        (2, vec![1]),
        (3, vec![0xff]),
        (4, vec![0x3f, 0xf0, 0, 0, 0, 0, 0, 0]),
        (6, vec![0x12, 0x34]),
        (8, i32b(-5)),
        (10, vec![0xff; 8]),
        (11, strb(b"")),
        (11, strb("\u{e9}t\u{e9}".as_bytes())),
        (12, vec![0]),
        (12, st.clone()),
        (13, [&[11u8, 8][..], &i32b(1), &strb(b"k"), &i32b(1)].concat()),
        (13, [&[0u8, 0][..], &i32b(0)].concat()),
        (14, [&[12u8][..], &i32b(1), &st].concat()),
        (15, [&[10u8][..], &i32b(0)].concat()),
    ]
}

/// Kinds of answers, faulty and correct
pub fn kinds(full: bool) -> Vec<Kind> {
    let mut v = vec![];
    // verdicts
    let codes: Vec<i32> = if full {
        (-300..=1000).chain((0..31).map(|b| 1 << b)).chain([i32::MIN, i32::MAX, 257, 65537, 0x01000000, -2]).collect()
    } else {
        vec![-1, 0, 1, 2, 3, 200, 256, 257, 0x01000000, i32::MIN, i32::MAX]
    };
    for c in codes {
        v.push(code_kind(c, b"ok", c % 2 != 0));
    }
    const LONG: &[u8] = &[b'm'; 9000];
    for c in [1, -1, 0] {
        for m in [&b""[..], "\u{e9}\u{1f600}".as_bytes(), b"success", b"\0", LONG, &[0xff], &[b'a', 0xc3]] {
            v.push(code_kind(c, m, false));
        }
    }
    // structure of the result
    let acc = || status(1, b"ok");
    let ok = |v: &mut Vec<Kind>, l: String, body: Vec<u8>| {
        v.push(kind(l, Expect::Ok, move |n, s| framed(&message(false, n, 2, s, &body))));
    };
    let bad = |v: &mut Vec<Kind>, l: &str, body: Vec<u8>| {
        v.push(kind(l, Expect::Err, move |n, s| framed(&message(false, n, 2, s, &body))));
    };
    v.push(kind("strict", Expect::Ok, |n, s| framed(&message(true, n, 2, s, &result(&status(1, b"ok"))))));
    v.push(kind("strict refusal", Expect::Err, |n, s| framed(&message(true, n, 2, s, &result(&status(-1, b"ok"))))));
    ok(&mut v, "fields swapped".into(), result(&[field(11, 2, &strb(b"m")), field(8, 1, &i32b(1)), vec![0]].concat()));
    bad(&mut v, "refused, fields swapped", result(&[field(11, 2, &strb(b"m")), field(8, 1, &i32b(0)), vec![0]].concat()));
    for (i, (t, x)) in any_values().into_iter().enumerate() {
        ok(&mut v, format!("unknown field {i} first"), [field(t, 77, &x), field(12, 0, &acc()), vec![0]].concat());
        ok(&mut v, format!("unknown field {i} last"), [field(12, 0, &acc()), field(t, -3, &x), vec![0]].concat());
        ok(&mut v, format!("unknown status field {i}"), result(&[field(t, 3, &x), acc()].concat()));
        bad(&mut v, &format!("unknown field {i} only"), [field(t, 77, &x), vec![0]].concat());
        bad(&mut v, &format!("refused, unknown field {i}"), result(&[field(t, 3, &x), status(0, b"")].concat()));
    }
    bad(&mut v, "no result", vec![0]);
    bad(&mut v, "empty status", result(&[0]));
    bad(&mut v, "no code", result(&[field(11, 2, &strb(b"ok")), vec![0]].concat()));
    bad(&mut v, "no message", result(&[field(8, 1, &i32b(1)), vec![0]].concat()));
    bad(&mut v, "empty body", vec![]);
    bad(&mut v, "unterminated", field(12, 0, &status(1, b"ok"))[..].to_vec());
    // other messages
    let names: Vec<(&str, Vec<u8>)> = [
        "check", "startSync", "init", "initSyncData", "syncData", "checkDataDigest", "endSync", "syncDeletedFileName",
        "", "CHECK", "\u{e9}",
    ]
    .iter()
    .map(|n| (*n, n.as_bytes().to_vec()))
    .collect();
    for (l, n2) in names {
        for k in [2u8, 3] {
            let n3 = n2.clone();
            v.push(kind(format!("name {l:?} kind {k}"), Expect::Any, move |_, s| {
                let body = if k == 2 { result(&status(1, b"ok")) } else { [field(11, 1, &strb(b"m")), field(8, 2, &i32b(1)), vec![0]].concat() };
                framed(&message(false, &n3, k, s, &body))
            }));
        }
    }
    v.push(kind("name with one more byte", Expect::Err, |n, s| {
        framed(&message(false, &[n, b"x"].concat(), 2, s, &result(&status(1, b"ok"))))
    }));
    v.push(kind("name with one byte less", Expect::Err, |n, s| {
        framed(&message(false, &n[..n.len() - 1], 2, s, &result(&status(1, b"ok"))))
    }));
    v.push(kind("name not a string", Expect::Err, |_, s| framed(&message(false, &[0xff, 0xfe], 2, s, &result(&status(1, b"ok"))))));
    for k in (0..=255u8).filter(|k| *k != 2) {
        if k > 6 && !full && k % 50 != 1 {
            continue;
        }
        for strict in [false, true] {
            v.push(kind(format!("kind {k} strict {strict}"), Expect::Err, move |n, s| {
                framed(&message(strict, n, k, s, &result(&status(1, b"ok"))))
            }));
        }
    }
    for d in [-1i32, 1, 2, 256, 65536, 1 << 24, i32::MIN, i32::MAX] {
        for strict in [false, true] {
            v.push(kind(format!("sequence number {d:+} strict {strict}"), Expect::Err, move |n, s| {
                framed(&message(strict, n, 2, s.wrapping_add(d), &result(&status(1, b"ok"))))
            }));
        }
    }
    // exceptions
    for t in [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, i32::MAX] {
        v.push(kind(format!("exception {t}"), Expect::Err, move |n, s| {
            framed(&message(false, n, 3, s, &[field(11, 1, &strb(b"m")), field(8, 2, &i32b(t)), vec![0]].concat()))
        }));
    }
    v.push(kind("empty exception", Expect::Err, |n, s| framed(&message(false, n, 3, s, &[0]))));
    v.push(kind("exception with a status", Expect::Err, |n, s| framed(&message(false, n, 3, s, &[field(12, 9, &status(1, b"ok")), vec![0]].concat()))));
    v.push(kind("unterminated exception", Expect::Err, |n, s| framed(&message(false, n, 3, s, &field(11, 1, &strb(b"m"))))));
    // other versions
    for b in [0x00u8, 0x02, 0x80, 0xff] {
        v.push(kind(format!("version {b}"), Expect::Err, move |n, s| {
            let mut m = message(true, n, 2, s, &result(&status(1, b"ok")));
            m[1] = b;
            framed(&m)
        }));
    }
    // no answer at all
    for t in [Then::Fin, Then::Rst] {
        let mut k = kind(format!("no answer, {t:?}"), Expect::Err, |_, _| vec![]);
        k.then = t;
        v.push(k);
        let mut k = kind(format!("empty frame, {t:?}"), Expect::Err, |_, _| framed(&[]));
        k.then = t;
        v.push(k);
    }
    // a longer frame than what follows, and a shorter one
    for d in [1usize, 2, 3, 100, 5000, 70000] {
        let mut k = kind(format!("frame longer by {d}"), Expect::Err, move |n, s| {
            let m = message(false, n, 2, s, &result(&status(1, b"ok")));
            [i32b((m.len() + d) as i32), m].concat()
        });
        k.then = Then::Fin;
        v.push(k);
    }
    for d in [1usize, 2, 3] {
        let mut k = kind(format!("frame shorter by {d}"), Expect::Err, move |n, s| {
            let m = message(false, n, 2, s, &result(&status(1, b"ok")));
            [i32b((m.len() - d) as i32), m].concat()
        });
        k.then = Then::Fin;
        v.push(k);
    }
    // an accepting answer that is cut after every byte
    for strict in [false, true] {
        for t in [Then::Fin, Then::Rst] {
            for cut in 0..80usize {
                let mut k = kind(format!("strict {strict} cut after {cut}, {t:?}"), Expect::Any, move |n, s| {
                    let m = framed(&message(strict, n, 2, s, &result(&status(1, b"ok"))));
                    m[..cut.min(m.len() - 1)].to_vec()
                });
                k.want = Expect::Err;
                k.then = t;
                v.push(k);
            }
        }
    }
    v
}

/// What the kind demands as the answer to this request (kinds with another name may have its name)
fn demand(k: &Kind, name: &[u8], seq: i32) -> Expect {
    if k.want != Expect::Any {
        return k.want;
    }
    let b = (k.make)(name, seq);
    classify(&b[4..], name, seq)
}

// ---------------------------------------------------------------- C20

fn check_confirm(frame: &[u8], addr: Option<&str>, uuid: Option<&str>) -> R<String> {
    let m = decode(frame).map_err(|e| format!("request {frame:02x?}: {e}"))?;
    if m.name != b"check" || m.kind != 1 || m.rest != 0 {
        return Err(format!("request {:?} of kind {}, {} bytes too many", String::from_utf8_lossy(&m.name), m.kind, m.rest));
    }
    let i = m.body.field(-1).ok_or("request without confirmation")?;
    let a = i.field(1).and_then(|x| x.text()).ok_or("no address")?;
    match addr {
        Some(w) if w != a => return Err(format!("address {a:?} instead of {w:?}")),
        None if a.parse::<std::net::IpAddr>().is_err() => return Err(format!("address {a:?}")),
        _ => {}
    }
    let u = i.field(2).and_then(|x| x.text()).ok_or("no identity")?;
    if uuid.map_or(false, |w| w != u) {
        return Err(format!("identity {u:?} instead of {uuid:?}"));
    }
    if i.field(3) != Some(&TV::Num(10, 604800)) {
        return Err(format!("partition interval {:?}", i.field(3)));
    }
    if i.field(4).and_then(|x| x.text()).as_deref() != Some("0.13") {
        return Err(format!("version {:?}", i.field(4)));
    }
    Ok(u)
}

fn one_handshake(k: Arc<Kind>, local: &str, uuid: &str) -> R<()> {
    let k2 = k.clone();
    let script = Script {
        cut: None,
        shut: None,
        again: false,
        handler: Box::new(move |i, f| {
            if i > 0 {
                return hang_up();
            }
            let (n, _, s, _) = head(f).unwrap_or((b"?".to_vec(), 0, -99, 0));
            k2.answer(&n, s, true)
        }),
    };
    let (out, seen) = with_server(script, |addr| match open(addr, Some(local), Some(uuid)) {
        Ok(_s) => Out::Ok,
        Err(o) => o,
    });
    if seen.frames.len() != 1 || !seen.partial.is_empty() {
        return Err(format!("{} requests and {} bytes seen", seen.frames.len(), seen.partial.len()));
    }
    check_confirm(&seen.frames[0], Some(local), Some(uuid))?;
    let want = demand(&k, b"check", seq_of(&seen.frames[0]));
    agree(&out, want).map_err(|e| format!("answer [{}]: opening the sender {e}", k.label))
}

/// Answers with a negative length in them; all of them must give an error
fn negative(frame: bool) -> Vec<Kind> {
    let mut v = vec![];
    for len in [-1i32, -2, -4096, i32::MIN, i32::MIN + 1] {
        if frame {
            v.push(kind(format!("frame of {len} bytes"), Expect::Err, move |n, s| {
                [i32b(len), message(false, n, 2, s, &result(&status(1, b"ok")))].concat()
            }));
        } else {
            let l = i32b(len);
            v.push(kind(format!("message text of {len} bytes"), Expect::Err, {
                let l = l.clone();
                move |n, s| framed(&message(false, n, 2, s, &result(&[field(8, 1, &i32b(1)), field(11, 2, &l), vec![0]].concat())))
            }));
            v.push(kind(format!("exception text of {len} bytes"), Expect::Err, {
                let l = l.clone();
                move |n, s| framed(&message(false, n, 3, s, &[field(11, 1, &l), vec![0]].concat()))
            }));
            v.push(kind(format!("unknown string of {len} bytes"), Expect::Err, {
                let l = l.clone();
                move |n, s| framed(&message(false, n, 2, s, &[field(11, 9, &l), vec![0]].concat()))
            }));
            v.push(kind(format!("method name of {len} bytes"), Expect::Err, {
                let l = l.clone();
                move |_, s| framed(&[&[0x80u8, 1, 0, 2][..], &l, &i32b(s), &result(&status(1, b"ok"))].concat())
            }));
        }
    }
    for k in v.iter_mut() {
        k.then = Then::Fin;
    }
    v
}

/// One case for all the answers with a negative length; a panic is told apart from acceptance
fn negative_cases(ctx: &Ctx, f: impl Fn(Arc<Kind>) -> R<()>) {
    for (frame, what) in [(true, "frame-length-negative"), (false, "string-length-negative")] {
        let mut panics: R<()> = Ok(());
        let mut others: R<()> = Ok(());
        for k in negative(frame) {
            ctx.steps(1);
            ctx.state(H::new().s(&k.label).u(202).get());
            if let Err(e) = f(Arc::new(k)) {
                if e.contains("panics: ") {
                    panics = Err(e);
                } else {
                    others = Err(e);
                }
            }
        }
        ctx.case(|| format!("answer/{what}"), || panics.clone());
        ctx.case(|| format!("answer/{what}/other"), || others.clone());
    }
}

/// Child: opens a sender with the given parameters ("-": none)
pub fn child_start(addr: &str, local: &str, uuid: &str) {
    let o = |s: &'static str| if s == "-" { None } else { Some(s) };
    let (local, uuid) = (leak(local.to_string()), leak(uuid.to_string()));
    mark(BEGIN);
    let r = open(addr, o(local), o(uuid));
    mark(END);
    match r {
        Ok(_) => println!("result ok"),
        Err(Out::Err(e)) => println!("result error {e}"),
        Err(o) => println!("result {o:?}"),
    }
}

pub fn c20(ctx: &Ctx) {
    if ctx.small {
        // nothing here depends on the thresholds
        ctx.note("small", "not applicable: no thresholds involved");
        return;
    }
    // every kind of answer
    let all: Vec<Arc<Kind>> = kinds(true).into_iter().map(Arc::new).collect();
    ctx.part("kinds of answers", all.len() as u64);
    ctx.par(all.len(), |i| {
        ctx.case(|| format!("kind/{i}"), || {
            ctx.steps(1);
            ctx.state(H::new().u(i as u64).u(20).get());
            one_handshake(all[i].clone(), "10.1.2.3", UUID)?;
            ctx.outcome(&format!("{:?}", demand(&all[i], b"check", 1)));
            Ok(())
        });
    });
    ctx.sample(|| format!("answers: {:?}", all.iter().step_by(97).map(|k| k.label.clone()).collect::<Vec<_>>()));
    // name x kind x sequence number x body
    let names: Vec<&'static [u8]> = vec![b"check", b"startSync", b"", b"chec", b"checks", b"Check", b"check\0", b"initSyncData"];
    let ks = [0u8, 1, 2, 3, 4, 5, 255];
    let seqs = [0i32, 1, -1, 2, i32::MIN];
    let bodies: Vec<Vec<u8>> = vec![
        result(&status(1, b"ok")),
        result(&status(0, b"ok")),
        result(&status(-1, b"")),
        result(&[0]),
        vec![0],
        vec![],
        [field(8, 1, &i32b(1)), field(11, 2, &strb(b"ok")), vec![0]].concat(),
        [field(11, 1, &strb(b"m")), field(8, 2, &i32b(1)), vec![0]].concat(),
    ];
    let total = names.len() * ks.len() * seqs.len() * bodies.len() * 2;
    ctx.part("combinations of name, kind, sequence number, body", total as u64);
    ctx.par(total, |q| {
        ctx.case(|| format!("product/{q}"), || {
            let (n, q1) = (names[q % names.len()], q / names.len());
            let (k, q2) = (ks[q1 % ks.len()], q1 / ks.len());
            let (d, q3) = (seqs[q2 % seqs.len()], q2 / seqs.len());
            let (b, strict) = (bodies[q3 % bodies.len()].clone(), q3 / bodies.len() == 1);
            // a status where the wrapper is expected reads as a result without a value or not at all
            let k = kind(format!("{:?} kind {k} seq {d:+} strict {strict} {b:02x?}", String::from_utf8_lossy(n)), Expect::Any, move |_, s| {
                framed(&message(strict, n, k, s.wrapping_add(d), &b))
            });
            ctx.steps(1);
            ctx.state(H::new().u(q as u64).u(2020).get());
            let mut k = k;
            k.then = Then::Fin;
            one_handshake(Arc::new(k), "10.1.2.3", UUID)
        });
    });
    // every byte of an answer changed to every value
    let bases: Vec<(&str, Vec<u8>)> = vec![
        ("accept", message(false, b"check", 2, 1, &result(&status(1, b"ok")))),
        ("accept strict", message(true, b"check", 2, 1, &result(&status(1, b"")))),
        ("refuse", message(false, b"check", 2, 1, &result(&status(2, b"no")))),
        ("exception", message(false, b"check", 3, 1, &[field(11, 1, &strb(b"m")), field(8, 2, &i32b(1)), vec![0]].concat())),
        ("extra", message(false, b"check", 2, 1, &[field(15, 5, &[&[11u8][..], &i32b(1), &strb(b"e")].concat()), field(12, 0, &status(1, b"k")), vec![0]].concat())),
    ];
    for (bi, (bn, base)) in bases.iter().enumerate() {
        ctx.part("answers with one byte changed", (base.len() * 256) as u64);
        ctx.par(base.len() * 256, |q| {
            let (pos, val) = (q / 256, (q % 256) as u8);
            let mut m = base.clone();
            if m[pos] == val {
                return;
            }
            m[pos] = val;
            // negative lengths have their own case
            if matches!(decode(&m), Err(e) if e == "negative length") || matches!(head(&m), Err(e) if e == "negative length") {
                return;
            }
            ctx.case(|| format!("byte/{bi}/{pos}/{val}"), || {
                ctx.steps(1);
                ctx.state(H::new().u(q as u64).u(bi as u64).u(2021).get());
                let m = m.clone();
                let mut k = kind(format!("{bn}, byte {pos} is {val:#x}"), Expect::Any, move |_, _| framed(&m));
                k.then = Then::Fin;
                one_handshake(Arc::new(k), "10.1.2.3", UUID)
            });
        });
        if ctx.quick() {
            continue;
        }
        // two bytes changed, to values at the edges
        let vals = [0u8, 1, 2, 0x7f, 0x80, 0xff];
        let np = base.len();
        let total = np * np * 36;
        ctx.part("answers with two bytes changed", total as u64);
        ctx.par(total, |q| {
            let (a, q1) = (q % np, q / np);
            let (b, q2) = (q1 % np, q1 / np);
            if a >= b {
                return;
            }
            let mut m = base.clone();
            m[a] = vals[q2 % 6];
            m[b] = vals[q2 / 6];
            if !m.iter().any(|x| *x != 0) || lengths_negative(&m) {
                return;
            }
            ctx.case(|| format!("bytes/{bi}/{q}"), || {
                ctx.steps(1);
                ctx.state(H::new().u(q as u64).u(bi as u64).u(2022).get());
                let m = m.clone();
                let mut k = kind(format!("{bn}, bytes {a} and {b} changed: {m:02x?}"), Expect::Any, move |_, _| framed(&m));
                k.then = Then::Fin;
                one_handshake(Arc::new(k), "10.1.2.3", UUID)
            });
        });
    }
    negative_cases(ctx, |k| one_handshake(k, "10.1.2.3", UUID));
    // the connection ends before, during, after the request
    let request = {
        let (_, seen) = with_server(Script { cut: None, shut: None, again: false, handler: Box::new(|_, _| hang_up()) }, |a| {
            open(a, Some("10.1.2.3"), Some(UUID)).is_ok()
        });
        seen.frames.first().map_or(0, |f| f.len() + 4)
    };
    for t in [Then::Fin, Then::Rst] {
        for n in 0..=request + 1 {
            ctx.part("connection lost during the request", 1);
            ctx.case(|| format!("lost/{t:?}/{n}"), || {
                let script = Script {
                    cut: if n == 0 { None } else { Some((0, n - 1, t)) },
                    shut: if n == 0 { Some(t) } else { None },
                    again: false,
                    handler: Box::new(|_, _| go(vec![])),
                };
                let (out, _) = with_server(script, |a| match open(a, Some("10.1.2.3"), Some(UUID)) {
                    Ok(_s) => Out::Ok,
                    Err(o) => o,
                });
                ctx.steps(1);
                ctx.state(H::new().u(n as u64).u(t as u64).u(2023).get());
                agree(&out, Expect::Err).map_err(|e| format!("connection lost after {n} bytes ({t:?}): opening the sender {e}"))
            });
        }
    }
    // addresses that nobody listens at, or that are none
    let closed = {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        l.local_addr().unwrap().to_string()
    };
    for a in [closed.as_str(), "", ":", "127.0.0.1", "127.0.0.1:", "127.0.0.1:99999", "127.0.0.1:-1", ":1", "\0", "[::1", "256.1.1.1:1x"] {
        ctx.part("addresses without a server", 1);
        ctx.case(|| format!("address/{a:?}"), || {
            ctx.steps(1);
            ctx.state(H::new().s(a).get());
            let out = match open(a, Some("x"), Some(UUID)) {
                Ok(_) => Out::Ok,
                Err(o) => o,
            };
            agree(&out, Expect::Err).map_err(|e| format!("address {a:?}: opening the sender {e}"))
        });
    }
    // parameters
    let long = leak("l".repeat(5000));
    let texts: Vec<Name> = vec!["10.1.2.3", "", "fe80::1%eth0", "\u{e9}\u{1f600}", "a b", UUID, long];
    let nt = texts.len();
    ctx.part("given parameters", (nt * nt) as u64);
    ctx.par(nt * nt, |q| {
        for (c, l) in [(1, "y"), (0, "n")] {
            ctx.case(|| format!("given/{q}/{c}"), || {
                ctx.steps(1);
                ctx.state(H::new().u(q as u64).u(c as u64).u(2024).get());
                let _ = l;
                one_handshake(Arc::new(code_kind(c, b"ok", false)), texts[q % nt], texts[q / nt])
            });
        }
    });
    // every character first, last, in between; every length
    let mut texts: Vec<String> = vec![];
    for c in (0..=0x17fu32).chain([0x2028, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]).filter_map(char::from_u32) {
        texts.extend([format!("{c}"), format!("{c}b"), format!("b{c}"), format!("a{c}b"), format!("{c}{c}"), format!("0{c}0a.F{c}")]);
    }
    texts.extend((0..ctx.pick(300, 2000)).map(|n| "aB3-".chars().cycle().take(n).collect()));
    texts.extend((12..20).flat_map(|b| [-1i64, 0, 1].map(|d| "x".repeat(((1i64 << b) + d) as usize))));
    texts.extend([UUID.to_uppercase(), "550e8400-e29b-41d4-a716-446655440000".into(), "{550E8400-E29B-41D4-A716-446655440000}".into(), "[::1]:80".into(), "localhost".into(), "-1".into(), "010.001.000.255".into(), "0x7f.1".into(), "FE80::1".into()]);
    ctx.part("texts as parameters", texts.len() as u64);
    ctx.par(texts.len(), |q| {
        ctx.case(|| format!("text/{q}"), || {
            let t = leak(texts[q].clone());
            for (l, u) in [(t, UUID), ("10.1.2.3", t), (t, t)] {
                ctx.steps(1);
                one_handshake(Arc::new(code_kind(1, b"ok", false)), l, u)?;
            }
            ctx.state(H::new().s(t).u(2026).get());
            Ok(())
        });
    });
    // defaulted parameters, in a process of its own (the identity is kept in the working directory)
    let dir = Scratch::new("c20");
    for (q, (l, u, stored)) in [
        ("-", UUID, None),
        ("-", "-", None),
        ("10.9.8.7", "-", None),
        ("-", "-", Some("ffffffffffffffffffffffffffffffff")),
        ("10.9.8.7", "-", Some("00000000000000000000000000000000")),
        ("10.9.8.7", UUID, Some("00000000000000000000000000000000")),
        ("10.9.8.7", UUID, None),
    ]
    .into_iter()
    .enumerate()
    {
        for code in [1, -1] {
            ctx.part("defaulted parameters", 1);
            ctx.case(|| format!("defaulted/{q}/{code}"), || {
                ctx.steps(1);
                ctx.state(H::new().u(q as u64).u(2025).get());
                let sub = dir.path(&format!("{q}.{code}"));
                std::fs::create_dir_all(&sub).unwrap();
                if let Some(s) = stored {
                    std::fs::write(format!("{sub}/uuid.lock"), s).unwrap();
                }
                let script = Script { cut: None, shut: None, again: false, handler: Box::new(move |_, f| {
                    let (n, _, s, _) = head(f).unwrap_or_default();
                    go(reply(&n, s, code))
                }) };
                let (r, seen) = with_server(script, |a| run_plain(&["child", "start", a, l, u], &sub));
                let text = r?;
                let ok = text.contains("result ok");
                if text.contains("NoLocalIpFound") && l == "-" && interfaces() == 0 {
                    ctx.outcome("no local interface");
                    return Ok(());
                }
                if ok != (code == 1) || text.contains("Panic") || !text.contains("result ") {
                    return Err(format!("answer {code}: {text:?}"));
                }
                if seen.frames.len() != 1 {
                    return Err(format!("{} requests", seen.frames.len()));
                }
                let u = check_confirm(&seen.frames[0], Some(l).filter(|l| *l != "-"), stored.filter(|_| u == "-").or(Some(u).filter(|u| *u != "-")))?;
                if !is_hex32(&u) {
                    return Err(format!("identity {u:?}"));
                }
                Ok(())
            });
        }
    }
}

/// Network interfaces of this machine
fn interfaces() -> usize {
    unsafe {
        let mut first = std::ptr::null_mut();
        if libc::getifaddrs(&mut first) != 0 {
            return 0;
        }
        let (mut n, mut at) = (0, first);
        while !at.is_null() {
            n += 1;
            at = (*at).ifa_next;
        }
        libc::freeifaddrs(first);
        n
    }
}

fn lengths_negative(m: &[u8]) -> bool {
    let neg = |e: R<()>| matches!(e, Err(e) if e == "negative length");
    neg(head(m).map(|_| ())) || neg(decode(m).map(|_| ())) || {
        // the generated reader takes fields 1 and 2 by number whatever their type says: leave out
        // anything in which any four bytes could be taken for a negative length of a string
        m.windows(4).any(|w| w[0] >= 0x80 && m[..2] != w[..2])
    }
}

fn is_hex32(s: &str) -> bool {
    s.len() == 32 && s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b) || (b'A'..=b'F').contains(&b))
}

/// Runs this executable in a directory; its output
fn run_plain(args: &[&str], dir: &str) -> R<String> {
    let exe = std::env::current_exe().map_err(|e| format!("harness: {e}"))?;
    let o = std::process::Command::new(exe)
        .args(args)
        .current_dir(dir)
        .output()
        .map_err(|e| format!("harness: {e}"))?;
    Ok(format!("{}{}", String::from_utf8_lossy(&o.stdout), if o.status.success() { String::new() } else { format!(" {}", o.status) }))
}

// ---------------------------------------------------------------- C21

type Files = BTreeMap<String, Vec<u8>>;

/// A state of the world: the directory, and the identity the server has been shown
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct World {
    files: Files,
    shown: Option<String>,
    /// files whose last bytes have not reached the disk
    dirty: Vec<String>,
    /// directories that may be there after a power failure, because names have not reached the disk
    lost: Vec<Files>,
    how: String,
}

fn read_dir(d: &std::path::Path) -> Files {
    let mut f = Files::new();
    if let Ok(r) = std::fs::read_dir(d) {
        for e in r.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if n.starts_with(".tsmc-out") {
                continue;
            }
            f.insert(n, std::fs::read(e.path()).unwrap_or_default());
        }
    }
    f
}

/// Same for states that differ in the random identities only
fn canonical(w: &World) -> String {
    let mut ids: Vec<String> = vec![];
    if let Some(s) = &w.shown {
        ids.push(s.clone());
    }
    let full = |t: &str| -> Vec<String> {
        t.split(|c: char| !c.is_ascii_hexdigit()).filter(|x| x.len() >= 32).map(|x| x.to_string()).collect()
    };
    for (n, c) in std::iter::once(&w.files).chain(&w.lost).flatten() {
        for i in full(n).into_iter().chain(full(&String::from_utf8_lossy(c))) {
            if !ids.contains(&i) {
                ids.push(i);
            }
        }
    }
    let shown = w.shown.clone();
    let token = |t: &str| -> String {
        let mut out = String::new();
        let mut run = String::new();
        for c in t.chars().chain(['|']) {
            if c.is_ascii_hexdigit() {
                run.push(c);
                continue;
            }
            if !run.is_empty() {
                if Some(&run) == shown.as_ref() {
                    out.push_str("<P>");
                } else if run.len() >= 32 {
                    out.push_str(&format!("<X{}>", run.len()));
                } else if run.len() > 3 {
                    out.push_str(&format!("<{}{}>", if shown.as_ref().map_or(false, |s| s.starts_with(&run)) { "p" } else { "x" }, run.len()));
                } else {
                    out.push_str(&format!("<h{}>", run.len()));
                }
                run.clear();
            }
            out.push(c);
        }
        out
    };
    let directory = |files: &Files| -> BTreeSet<String> {
        files
            .iter()
            .map(|(n, c)| {
                // a name and a content with the same identity belong together
                let same = full(n).first().map_or(false, |i| String::from_utf8_lossy(c).contains(i.as_str()));
                let dirty = if w.dirty.contains(n) { "~" } else { "" };
                let n = if n == "uuid.lock" { n.clone() } else { token(n) };
                format!("{n}={}{}{dirty}", token(&String::from_utf8_lossy(c)), if same { "=" } else { "" })
            })
            .collect()
    };
    let lost: BTreeSet<BTreeSet<String>> = w.lost.iter().map(directory).collect();
    format!("{}{:?}{}", if w.shown.is_some() { "shown " } else { "" }, directory(&w.files), if lost.is_empty() { String::new() } else { format!(" or {lost:?}") })
}

/// A moment of a start
#[derive(Clone)]
struct Point {
    /// the directory
    files: Files,
    /// the request is with the server
    sent: bool,
    dirty: Vec<String>,
    lost: Vec<Files>,
    how: String,
}

struct Started {
    /// presented identity
    id: Option<String>,
    /// before the first and after every system call
    points: Vec<Point>,
    end: Point,
    text: String,
    calls: Vec<(i64, u64, String)>,
}

/// What of a directory has reached the disk
struct Disk {
    dir: std::path::PathBuf,
    home: u64,
    now: Files,
    dirty: BTreeSet<u64>,
    lost: Vec<Files>,
}

impl Disk {
    /// Makes the directory as the world has it
    fn new(dir: &std::path::Path, w: &World) -> R<Disk> {
        let bad = |e| format!("harness: {e}");
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).map_err(bad)?;
        for (n, c) in &w.files {
            std::fs::write(dir.join(n), c).map_err(bad)?;
        }
        let dirty = w.dirty.iter().filter_map(|n| std::fs::metadata(dir.join(n)).ok()).map(|m| m.ino()).collect();
        let home = std::fs::metadata(dir).map_err(bad)?.ino();
        Ok(Disk { dir: dir.to_path_buf(), home, now: w.files.clone(), dirty, lost: w.lost.clone() })
    }
    fn synced(&mut self) {
        self.dirty.clear();
        self.lost.clear();
    }
    /// A call has returned
    fn after(&mut self, c: &Call) {
        if c.is_write() && c.ret > 0 || c.is(&[libc::SYS_ftruncate, libc::SYS_copy_file_range, libc::SYS_sendfile]) && c.ret >= 0 {
            let fd = if c.is(&[libc::SYS_copy_file_range]) { 2 } else { 0 };
            self.dirty.extend(c.file(c.args[fd] as i64).filter(|m| m.is_file()).map(|m| m.ino()));
        }
        if c.is(&[libc::SYS_fsync, libc::SYS_fdatasync]) && c.ret == 0 {
            if let Some(m) = c.file(c.args[0] as i64) {
                self.dirty.remove(&m.ino());
                if m.ino() == self.home {
                    self.lost.clear();
                }
            }
        }
        if c.is(&[libc::SYS_syncfs, libc::SYS_sync]) && c.ret == 0 {
            self.synced();
        }
        let now = read_dir(&self.dir);
        if !self.now.keys().eq(now.keys()) || self.replaced(&now) {
            let before = std::mem::replace(&mut self.now, now);
            if !self.lost.contains(&before) {
                self.lost.push(before);
            }
        } else {
            self.now = now;
        }
    }
    /// a name stands for another file
    fn replaced(&self, now: &Files) -> bool {
        self.now.iter().any(|(n, c)| now.get(n).map_or(false, |d| !d.starts_with(c) && c.len() >= 32))
    }
    fn point(&self, sent: bool, how: String) -> Point {
        let dirty = self.now.keys().filter(|n| std::fs::metadata(self.dir.join(n)).map_or(false, |m| self.dirty.contains(&m.ino()))).cloned().collect();
        Point { files: self.now.clone(), sent, dirty, lost: self.lost.clone(), how }
    }
}

/// On the server's socket
fn on_socket(c: &Call, nrs: &[i64]) -> bool {
    c.is(nrs) && c.file(c.args[0] as i64).map_or(false, |m| m.file_type().is_socket())
}

/// The answer is awaited: the request is with the server
fn waits(c: &Call) -> bool {
    c.is(&[libc::SYS_recvfrom]) || on_socket(c, &[libc::SYS_read, libc::SYS_readv])
}

fn confirming() -> Script {
    Script {
        cut: None,
        shut: None,
        again: false,
        handler: Box::new(|_, f| {
            let (n, _, s, _) = head(f).unwrap_or_default();
            go(reply(&n, s, 1))
        }),
    }
}

/// The identity the server was shown
fn presented(frames: &[Vec<u8>]) -> R<Option<String>> {
    let mut id = None;
    for f in frames {
        let m = decode(f)?;
        if m.name == b"check" {
            id = Some(m.body.field(-1).and_then(|i| i.field(2)).and_then(|x| x.text()).unwrap_or_default());
        }
    }
    Ok(id)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    /// the nth file-system call fails
    Fail(usize, i32),
    /// ... transfers so many bytes only
    Short(usize, u64),
    /// ... so many, and then the process dies
    Torn(usize, u64),
}

fn is_fs(c: &Call) -> bool {
    let fd = c.args[0] as i64 as i32;
    let by_path = [
        libc::SYS_open, libc::SYS_openat, libc::SYS_creat, libc::SYS_rename, libc::SYS_renameat, libc::SYS_renameat2,
        libc::SYS_unlink, libc::SYS_unlinkat, libc::SYS_link, libc::SYS_linkat, libc::SYS_mkdir, libc::SYS_stat,
        libc::SYS_lstat, libc::SYS_statx, libc::SYS_newfstatat, libc::SYS_truncate, libc::SYS_symlink, libc::SYS_chmod,
    ];
    let by_fd = [
        libc::SYS_write, libc::SYS_pwrite64, libc::SYS_writev, libc::SYS_read, libc::SYS_pread64, libc::SYS_readv,
        libc::SYS_fsync, libc::SYS_fdatasync, libc::SYS_close, libc::SYS_ftruncate, libc::SYS_fstat, libc::SYS_lseek,
        libc::SYS_fchmod, libc::SYS_flock, libc::SYS_copy_file_range,
    ];
    c.is(&by_path) || (c.is(&by_fd) && fd > 2)
}

fn start(dir: &std::path::Path, w: &World, fault: Fault) -> R<Started> {
    start_as(dir, w, fault, "-")
}

/// The path a call names
fn named(c: &Call) -> String {
    if c.is(&[libc::SYS_openat, libc::SYS_renameat, libc::SYS_renameat2, libc::SYS_linkat, libc::SYS_unlinkat]) {
        c.path(1)
    } else if c.is(&[libc::SYS_open, libc::SYS_creat, libc::SYS_unlink, libc::SYS_rename, libc::SYS_link]) {
        c.path(0)
    } else {
        String::new()
    }
}

fn start_as(dir: &std::path::Path, w: &World, fault: Fault, given: &str) -> R<Started> {
    let mut disk = Disk::new(dir, w)?;
    let mut points = vec![disk.point(false, "at the start".into())];
    let mut nfs = 0usize;
    let mut calls = vec![];
    let mut sent = false;
    let die_at = std::cell::Cell::new(None::<usize>);
    let (r, seen) = with_server(confirming(), |addr| {
        trace(
            &["child", "start", addr, "10.1.2.3", given],
            dir,
            |c| {
                if !is_fs(c) || on_socket(c, &[libc::SYS_read, libc::SYS_write, libc::SYS_close]) {
                    return Act::Go;
                }
                let n = nfs;
                nfs += 1;
                let len = c.args[2];
                calls.push((c.nr, len, named(c)));
                match fault {
                    Fault::Fail(k, e) if k == n => Act::Fail(e),
                    Fault::Short(k, b) if k == n && len > b => Act::Count(b),
                    Fault::Torn(k, b) if k == n && len > b => {
                        die_at.set(Some(c.k));
                        if b == 0 {
                            Act::Kill
                        } else {
                            Act::Count(b)
                        }
                    }
                    _ => Act::Go,
                }
            },
            |c| {
                sent |= waits(c);
                disk.after(c);
                points.push(disk.point(sent, format!("after call {} ({})", c.k, c.nr)));
                die_at.get() == Some(c.k)
            },
        )
    });
    let r = r?;
    if let Some(s) = r.signal {
        if !r.killed {
            return Err(format!("the sender's process ended with signal {s}"));
        }
    }
    let id = presented(&seen.frames)?;
    disk.now = read_dir(dir);
    let end = disk.point(id.is_some(), "ends".into());
    Ok(Started { id, points, end, text: r.stdout, calls })
}

/// One start from a world: what is presented must be right; returns the worlds it may leave behind
fn step(dir: &std::path::Path, w: &World, fault: Fault, out: &mut BTreeMap<String, World>) -> R<Started> {
    let s = start(dir, w, fault)?;
    let tell = |m: String| format!("{m} -- directory {:?}, {}, {fault:?}; output {:?}", w.files.iter().map(|(n, c)| (n, String::from_utf8_lossy(c))).collect::<Vec<_>>(), w.how, s.text);
    if let Some(id) = &s.id {
        if !is_hex32(id) {
            return Err(tell(format!("presents the identity {id:?}")));
        }
        if let Some(old) = &w.shown {
            if old != id {
                return Err(tell(format!("presents the identity {id}, before that it was {old}")));
            }
        }
    } else if fault == Fault::None {
        return Err(tell("presents no identity".into()));
    }
    if s.text.contains("result ok") && s.id.is_none() {
        return Err(tell("success without presenting an identity".into()));
    }
    for p in s.points.iter().chain([&s.end]) {
        let shown = if p.sent { s.id.clone().or(w.shown.clone()) } else { w.shown.clone() };
        for x in aftermath(p, shown, &format!("{}; {fault:?}", w.how)) {
            out.entry(canonical(&x)).or_insert(x);
        }
    }
    Ok(s)
}

/// The worlds in which the process (or all of them) may have left the directory when it died at
/// this moment, with the power or without
fn aftermath(p: &Point, shown: Option<String>, before: &str) -> Vec<World> {
    let mut out = vec![];
    let mut put = |files: Files, dirty: Vec<String>, lost: Vec<Files>, how: String| {
        out.push(World { files, shown: shown.clone(), dirty, lost, how: format!("{before} {how}") });
    };
    let how = &p.how;
    put(p.files.clone(), p.dirty.clone(), p.lost.clone(), if how == "ends" { how.clone() } else { format!("dies {how}") });
    for g in &p.lost {
        // power fails: names that were not synced are as they were
        put(g.clone(), vec![], vec![], format!("power lost {how}, names in the directory as before"));
    }
    // power fails: what was not synced may be lost, from any byte on
    for n in 0..p.dirty.iter().filter_map(|d| p.files.get(d)).map(|c| c.len()).max().unwrap_or(0) {
        let mut g = p.files.clone();
        for d in &p.dirty {
            if let Some(c) = g.get_mut(d) {
                c.truncate(n);
            }
        }
        put(g, vec![], vec![], format!("power lost {how}, {n} bytes of {:?} left", p.dirty));
    }
    out
}

/// Step of a schedule of several starts
#[derive(Clone, Copy, PartialEq, Debug)]
enum Seg {
    /// the process does so many file-system calls
    Run(usize, usize),
    /// it runs to its end
    Rest(usize),
    Kill(usize),
}

#[derive(Clone, Copy, PartialEq)]
enum At {
    Running,
    Parked,
    Done,
}

/// Several starts at once, in the order of the schedule. Returns the identities presented and what
/// they may have left behind once one was.
fn together(dir: &std::path::Path, w: &World, n: usize, order: &[Seg]) -> R<(Vec<Option<String>>, Point, BTreeMap<String, World>)> {
    use std::sync::mpsc::*;
    use std::time::{Duration, Instant};
    let disk = Mutex::new(Disk::new(dir, w)?);
    // processes whose request was sent, and the moments since then
    let moments: Mutex<(BTreeSet<usize>, Vec<(usize, Point)>)> = Mutex::new(Default::default());
    let (tell, events) = channel::<(usize, At)>();
    let mut grants = vec![];
    let results: Vec<R<Option<String>>> = std::thread::scope(|sc| {
        let mut threads = vec![];
        for p in 0..n {
            let (grant, granted) = channel::<bool>();
            grants.push(grant);
            let (tell, disk, moments) = (tell.clone(), &disk, &moments);
            threads.push(sc.spawn(move || -> R<Option<String>> {
                let (r, seen) = with_server(confirming(), |addr| {
                    trace(
                        &["child", "start", addr, "10.1.2.3", "-"],
                        dir,
                        |c| {
                            if !is_fs(c) || on_socket(c, &[libc::SYS_read, libc::SYS_write, libc::SYS_close]) {
                                return Act::Go;
                            }
                            let _ = tell.send((p, At::Parked));
                            match granted.recv() {
                                Ok(false) => Act::Kill,
                                _ => Act::Go,
                            }
                        },
                        |c| {
                            let mut d = disk.lock().unwrap();
                            d.after(c);
                            let mut m = moments.lock().unwrap();
                            if waits(c) {
                                m.0.insert(p);
                            }
                            let sent: Vec<usize> = m.0.iter().cloned().collect();
                            for q in sent {
                                m.1.push((q, d.point(true, format!("after call {} of process {p}", c.k))));
                            }
                            false
                        },
                    )
                });
                let _ = tell.send((p, At::Done));
                r?;
                presented(&seen.frames)
            }));
        }
        let mut at = vec![At::Running; n];
        // waits for a process to reach its next call or its end; false: it waits for another one
        let mut settle = |at: &mut Vec<At>, p: usize, limit: u64| -> bool {
            let t = Instant::now();
            while at[p] == At::Running {
                match events.recv_timeout(Duration::from_millis(limit).saturating_sub(t.elapsed())) {
                    Ok((q, a)) => at[q] = a,
                    Err(_) => return false,
                }
            }
            true
        };
        let tail: Vec<Seg> = (0..n).map(Seg::Rest).collect();
        for seg in order.iter().chain(&tail) {
            let (p, k, go) = match *seg {
                Seg::Run(p, k) => (p, k, true),
                Seg::Rest(p) => (p, usize::MAX, true),
                Seg::Kill(p) => (p, 1, false),
            };
            let mut done = 0;
            while done < k && settle(&mut at, p, 3000) && at[p] == At::Parked {
                at[p] = At::Running;
                let _ = grants[p].send(go);
                done += 1;
            }
            settle(&mut at, p, 3000);
        }
        // processes that waited for each other
        let t = Instant::now();
        while at.iter().any(|a| *a != At::Done) && t.elapsed() < Duration::from_secs(20) {
            for p in 0..n {
                if settle(&mut at, p, 50) && at[p] == At::Parked {
                    at[p] = At::Running;
                    let _ = grants[p].send(true);
                }
            }
        }
        grants.clear();
        threads.into_iter().map(|t| t.join().unwrap_or_else(|p| Err(panic_text(&*p)))).collect()
    });
    let ids = results.into_iter().collect::<R<Vec<_>>>()?;
    let mut d = disk.into_inner().unwrap();
    d.now = read_dir(dir);
    let end = d.point(true, "ends".into());
    let mut out = BTreeMap::new();
    let moments = moments.into_inner().unwrap().1;
    let all = moments.into_iter().chain((0..n).filter(|p| ids[*p].is_some()).map(|p| (p, end.clone())));
    for (p, m) in all {
        for x in aftermath(&m, ids[p].clone(), &format!("{}; {order:?}", w.how)) {
            out.entry(canonical(&x)).or_insert(x);
        }
    }
    Ok((ids, end, out))
}

/// All schedules of `n` starts with at most so many preemptions, if each makes at most `len` calls
fn schedules(n: usize, len: usize, preemptions: usize) -> Vec<Vec<Seg>> {
    fn go(n: usize, len: usize, left: usize, done: &mut Vec<usize>, last: usize, path: &mut Vec<Seg>, out: &mut Vec<Vec<Seg>>) {
        // processes that have not begun are alike: they begin in order
        let next = |done: &Vec<usize>| -> Vec<usize> { (0..n).filter(|p| *p != last && done[*p] < len && (*p == 0 || done[*p - 1] > 0)).collect() };
        for p in next(done) {
            let had = done[p];
            // to its end
            done[p] = len;
            path.push(Seg::Rest(p));
            if next(done).is_empty() && (0..n).all(|q| done[q] == len) {
                out.push(path.clone());
            } else {
                go(n, len, left, done, p, path, out);
            }
            path.pop();
            if left > 0 {
                for k in 1..len - had {
                    done[p] = had + k;
                    path.push(Seg::Run(p, k));
                    go(n, len, left - 1, done, p, path, out);
                    path.pop();
                }
            }
            done[p] = had;
        }
    }
    let mut out = vec![];
    go(n, len, preemptions, &mut vec![0; n], usize::MAX, &mut vec![], &mut out);
    out
}

/// Starts at the same time
fn c21_together(ctx: &Ctx, dir: &std::path::Path, worlds: &[World]) {
    let checked: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    for (i, w) in worlds.iter().enumerate() {
        let len = match start(&dir.join(format!("t{i}")), w, Fault::None) {
            Ok(s) => s.calls.len() + 2,
            Err(e) => {
                ctx.case(|| format!("together/{i}"), || Err(e.clone()));
                continue;
            }
        };
        let mut plan: Vec<(usize, Vec<Seg>)> = schedules(2, len, if i > 0 { 2 } else { ctx.pick(3, 4) }).into_iter().map(|o| (2, o)).collect();
        if i == 0 {
            plan.extend(schedules(3, len, ctx.pick(2, 3)).into_iter().map(|o| (3, o)));
        }
        // one dies while the other waits
        for a in 0..len {
            for b in 1..len {
                plan.push((2, vec![Seg::Run(0, a), Seg::Run(1, b), Seg::Kill(0), Seg::Rest(1)]));
            }
        }
        ctx.part(&format!("schedules of starts at the same time, world {i}, {len} calls"), plan.len() as u64);
        ctx.par(plan.len(), |q| {
            let (n, order) = &plan[q];
            ctx.case(|| format!("together/{i}/{order:?}"), || {
                let d = dir.join(format!("t{i}.{q}"));
                let (ids, end, after) = together(&d, w, *n, order)?;
                ctx.steps(order.len());
                ctx.state(H::new().s(&format!("{i} {order:?}")).get());
                let tell = |m: String| format!("{m} -- starts at the same time in the order {order:?}, directory {:?}", w.files.keys().collect::<Vec<_>>());
                let shown: BTreeSet<&String> = ids.iter().flatten().chain(&w.shown).collect();
                if let Some(x) = shown.iter().find(|x| !is_hex32(x)) {
                    return Err(tell(format!("presents the identity {x:?}")));
                }
                if shown.len() > 1 {
                    return Err(tell("the starts present different identities".into()));
                }
                if shown.is_empty() && !order.iter().any(|s| matches!(s, Seg::Kill(_))) {
                    return Err(tell("no start presents an identity".into()));
                }
                for (k, x) in after {
                    if checked.lock().unwrap().insert(k) {
                        step(&d, &x, Fault::None, &mut BTreeMap::new())?;
                        ctx.steps(1);
                    }
                }
                let _ = end;
                let _ = std::fs::remove_dir_all(&d);
                Ok(())
            });
        });
    }
    ctx.part("worlds left behind by starts at the same time", checked.into_inner().unwrap().len() as u64);
}

pub fn c21(ctx: &Ctx) {
    if ctx.small {
        ctx.note("small", "not applicable: no thresholds involved");
        return;
    }
    let dir = Scratch::new("c21");
    // breadth-first over the worlds: every start from every world, dying at every point
    let levels = ctx.pick(3, 4);
    let world = |files: Files, how: &str| World { files, shown: None, dirty: vec![], lost: vec![], how: how.into() };
    let empty = world(Files::new(), "");
    let kept = world([("uuid.lock".to_string(), b"0123456789abcdef0123456789abcdef".to_vec())].into_iter().collect(), "kept");
    let mut seen: BTreeSet<String> = [canonical(&empty), canonical(&kept)].into_iter().collect();
    let mut level = vec![empty.clone(), kept.clone()];
    let mut fixpoint = false;
    for l in 0..levels {
        let next: Mutex<BTreeMap<String, World>> = Mutex::new(BTreeMap::new());
        let last = l + 1 == levels;
        ctx.part(&format!("worlds at level {l}"), level.len() as u64);
        ctx.par(level.len(), |i| {
            let w = &level[i];
            ctx.state(H::new().s(&canonical(w)).get());
            ctx.case(|| format!("world/{l}/{i}"), || {
                let d = dir.dir().join(format!("w{l}.{i}"));
                let mut out = BTreeMap::new();
                let s = step(&d, w, Fault::None, &mut out)?;
                ctx.steps(s.points.len());
                if !last {
                    // every write torn at every byte
                    for (n, (nr, len, _)) in s.calls.iter().enumerate() {
                        if [libc::SYS_write, libc::SYS_pwrite64].contains(nr) {
                            for b in 0..(*len).min(64) {
                                let s = step(&d, w, Fault::Torn(n, b), &mut out)?;
                                ctx.steps(s.points.len());
                            }
                        }
                    }
                    // every call fails, every transfer is short; then the process goes on
                    for (n, (nr, len, _)) in s.calls.iter().enumerate() {
                        for e in [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EINTR, libc::EDQUOT] {
                            if *nr == libc::SYS_close && e != libc::EIO {
                                continue;
                            }
                            let s = step(&d, w, Fault::Fail(n, e), &mut out)?;
                            ctx.steps(s.points.len());
                        }
                        if [libc::SYS_write, libc::SYS_pwrite64, libc::SYS_read].contains(nr) {
                            for b in 1..(*len).min(40) {
                                let s = step(&d, w, Fault::Short(n, b), &mut out)?;
                                ctx.steps(s.points.len());
                            }
                        }
                    }
                }
                let _ = std::fs::remove_dir_all(&d);
                let mut n = next.lock().unwrap();
                for (k, v) in out {
                    n.entry(k).or_insert(v);
                }
                Ok(())
            });
        });
        level = next.into_inner().unwrap().into_iter().filter(|(k, _)| seen.insert(k.clone())).map(|x| x.1).collect();
        if level.is_empty() {
            fixpoint = true;
            break;
        }
    }
    ctx.note("fixpoint", fixpoint);
    ctx.sample(|| format!("worlds: {:?}", seen.iter().step_by(9).take(12).collect::<Vec<_>>()));
    let left = world([("uuid.lock.0123456789abcdef0123456789abcdef".to_string(), b"0123456789abcdef".to_vec())].into_iter().collect(), "left over");
    c21_together(ctx, dir.dir(), &[empty.clone(), left, World { shown: Some("0123456789abcdef0123456789abcdef".into()), ..kept.clone() }]);
    // many restarts
    let n = ctx.pick(10, 60);
    ctx.part("restarts", n);
    ctx.case(|| "restarts".to_string(), || {
        let mut w = empty.clone();
        for k in 0..n {
            let d = dir.dir().join("many");
            let mut out = BTreeMap::new();
            let s = step(&d, &w, Fault::None, &mut out).map_err(|e| format!("start {k}: {e}"))?;
            ctx.steps(s.points.len());
            if k > 0 && s.end.files.get("uuid.lock") != w.files.get("uuid.lock") {
                return Err(format!("start {k}: the stored identity changed"));
            }
            w = World { shown: s.id.or(w.shown), ..world(s.end.files, &format!("start {k}")) };
        }
        Ok(())
    });
    // starts with a given identity between starts without one: all histories
    let givens = ["-", "ffffffffffffffffffffffffffffffff", "0123456789abcdef0123456789abcde0"];
    let depth = ctx.pick(4usize, 6);
    let total = givens.len().pow(depth as u32);
    ctx.part("starts with and without a given identity", 2 * total as u64);
    ctx.par(2 * total, |q| {
        ctx.case(|| format!("given/{q}"), || {
            let d = dir.dir().join(format!("g{q}"));
            let mut files = Files::new();
            let mut kept: Option<String> = None;
            if q >= total {
                let id = "0123456789abcdef0123456789abcdef";
                files.insert("uuid.lock".into(), id.as_bytes().to_vec());
                kept = Some(id.into());
            }
            let mut left = q % total;
            let mut how = vec![];
            for _ in 0..depth {
                let g = givens[left % givens.len()];
                left /= givens.len();
                how.push(g);
                let s = start_as(&d, &world(files, ""), Fault::None, g)?;
                ctx.steps(1);
                ctx.state(H::new().u(q as u64).u(how.len() as u64).u(21).get());
                let id = s.id.clone().ok_or_else(|| format!("starts {how:?}: no identity presented"))?;
                let want = if g == "-" { kept.clone() } else { Some(g.to_string()) };
                if !is_hex32(&id) || want.as_ref().map_or(false, |w| *w != id) {
                    return Err(format!("starts {how:?}: presents {id:?}, expected {want:?}"));
                }
                if g == "-" {
                    kept = Some(id);
                }
                files = s.end.files;
            }
            let _ = std::fs::remove_dir_all(&d);
            Ok(())
        });
    });
    // identities that are already there, with a given one as well
    let ids: Vec<String> = (0..16u32).map(|k| format!("{k:x}").repeat(32)).chain((0..32).map(|k| format!("{}1{}", "0".repeat(k), "0".repeat(31 - k)))).chain(["ABCDEF0123456789ABCDEF0123456789".to_string(), "aBcDeF0123456789AbCdEf0123456789".to_string()]).collect();
    ctx.part("stored identities", ids.len() as u64);
    ctx.par(ids.len(), |i| {
        ctx.case(|| format!("stored/{i}"), || {
            let d = dir.dir().join(format!("s{i}"));
            let w = World { shown: Some(ids[i].clone()), ..world([("uuid.lock".to_string(), ids[i].clone().into_bytes())].into_iter().collect(), "stored") };
            let mut out = BTreeMap::new();
            let s = step(&d, &w, Fault::None, &mut out)?;
            ctx.steps(s.points.len());
            ctx.state(H::new().s(&ids[i]).get());
            if s.end.files != w.files {
                return Err(format!("the directory changed to {:?}", s.end.files.keys()));
            }
            Ok(())
        });
    });
}

// ---------------------------------------------------------------- C22

/// A receiver that follows the protocol
#[derive(Default)]
struct Receiver {
    started: bool,
    group: Option<String>,
    cur: Option<String>,
    files: Vec<(String, Vec<u8>, bool)>,
    ended: bool,
    wrong: Vec<String>,
    steps: Vec<String>,
}

impl Receiver {
    fn handle(&mut self, m: &Msg) -> i32 {
        let name = String::from_utf8_lossy(&m.name).to_string();
        let arg = |id| m.body.field(id).cloned();
        let text = |id: i16| arg(id).and_then(|x| x.text());
        let mut shown = name.clone();
        let ok = match name.as_str() {
            "check" => true,
            "startSync" => {
                let ok = !self.started;
                self.started = true;
                self.ended = false;
                self.group = None;
                ok
            }
            "init" => {
                let ok = self.started && self.group.is_none();
                self.group = text(1);
                ok && self.group.is_some()
            }
            "initSyncData" => {
                let open = self.files.last().map_or(false, |f| !f.2);
                let ok = self.group.is_some() && !open && !self.ended;
                match text(1) {
                    Some(n) => {
                        shown = format!("{name} {n}");
                        self.files.push((n.clone(), vec![], false));
                        self.cur = Some(n);
                        ok
                    }
                    None => false,
                }
            }
            "syncData" => match (arg(1), self.files.last_mut()) {
                (Some(TV::Bytes(b)), Some(f)) if !f.2 && !self.ended => {
                    f.1.extend_from_slice(&b);
                    true
                }
                _ => false,
            },
            "checkDataDigest" => match (text(1), self.files.last_mut()) {
                (Some(d), Some(f)) if !f.2 => {
                    f.2 = true;
                    if digest(&f.1) == d {
                        true
                    } else {
                        self.wrong.push(format!("digest {d} of {} is not {}", f.0, digest(&f.1)));
                        return -1;
                    }
                }
                _ => false,
            },
            "endSync" => {
                let ok = self.group.is_some() && !self.ended && self.files.last().map_or(true, |f| f.2);
                self.ended = true;
                self.started = false;
                ok
            }
            _ => false,
        };
        self.steps.push(shown);
        if ok {
            1
        } else {
            self.wrong.push(format!("unexpected request {name}"));
            -1
        }
    }
}

/// Runs one transfer; `at`: the answer to this request (by number) is of the given kind
fn transfer(file: &str, group: &str, sch: &[Ser], at: Option<(usize, Arc<Kind>)>, cut: Option<(usize, usize, Then)>) -> (Out, Receiver, Seen) {
    let rec = Arc::new(Mutex::new(Receiver::default()));
    let r2 = rec.clone();
    let script = Script {
        cut,
        shut: None,
        again: false,
        handler: Box::new(move |i, f| {
            let mut r = r2.lock().unwrap();
            match decode(f) {
                Ok(m) => {
                    let code = r.handle(&m);
                    match &at {
                        Some((k, a)) if *k == i => a.answer(&m.name, m.seq, false),
                        _ => go(reply(&m.name, m.seq, code)),
                    }
                }
                Err(e) => {
                    r.wrong.push(format!("request {i}: {e}"));
                    hang_up()
                }
            }
        }),
    };
    let (out, seen) = send(script, file, group, sch);
    let r = std::mem::take(&mut *rec.lock().unwrap());
    (out, r, seen)
}

fn send(script: Script, file: &str, group: &str, sch: &[Ser]) -> (Out, Seen) {
    with_server(script, |a| {
        let mut s = match open(a, Some("10.1.2.3"), Some(UUID)) {
            Ok(s) => s,
            Err(o) => return o,
        };
        match catch_unwind(AssertUnwindSafe(|| sync(&mut s, file, group, build_schema(sch)))) {
            Ok(Ok(())) => Out::Ok,
            Ok(Err(e)) => Out::Err(format!("{e:?}")),
            Err(p) => Out::Panic(panic_text(&*p)),
        }
    })
}

/// What a receiver that took part in a successful transfer must hold
fn received(r: &Receiver, file: &str, bytes: &[u8], group: &str, sch: &[Ser]) -> R<()> {
    received_as(r, &[&format!("0_0_{file}")], bytes, group, sch)
}

/// ... under one of these names
fn received_as(r: &Receiver, want: &[&str], bytes: &[u8], group: &str, sch: &[Ser]) -> R<()> {
    if !r.wrong.is_empty() {
        return Err(format!("the receiver found fault: {:?} (requests {:?})", r.wrong, r.steps));
    }
    if !r.ended {
        return Err(format!("the transfer was not ended: {:?}", r.steps));
    }
    if r.group.as_deref() != Some(group) {
        return Err(format!("storage group {:?} instead of {group:?}", r.group));
    }
    let names: Vec<&str> = r.files.iter().map(|f| f.0.as_str()).collect();
    if !want.iter().any(|w| names == ["mlog.bin", w]) {
        return Err(format!("files received: {names:?}"));
    }
    if r.files.iter().any(|f| !f.2) {
        return Err("a file was sent without its digest".into());
    }
    check_log(&r.files[0].1, group, sch).map_err(|e| format!("metadata log: {e}"))?;
    if r.files[1].1 != bytes {
        return Err(format!("{} bytes received instead of {}, or other ones", r.files[1].1.len(), bytes.len()));
    }
    Ok(())
}

/// Length of the digest of the metadata log, by what the sender sends
fn mlog_digest(group: &str, sch: &[Ser]) -> usize {
    digest(&write_mlog(group, build_schema(sch)).unwrap_or_default()).len()
}

fn content(n: usize, salt: u64) -> Vec<u8> {
    let mut x = salt.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 32) as u8
        })
        .collect()
}

pub fn c22(ctx: &Ctx) {
    if ctx.small {
        ctx.note("small", "not applicable: no thresholds involved");
        return;
    }
    let dir = Scratch::new("c22");
    std::env::set_current_dir(dir.dir()).expect("scratch directory");
    let put = |n: &str, b: &[u8]| std::fs::write(n, b).expect("scratch file");
    let cs = all_configs();
    // contents: every length up to a bound, bounds of buffers, all digests of the first lengths
    let mut lens: Vec<usize> = (0..ctx.pick(600, 4000)).collect();
    lens.extend([4091, 4092, 4093, 4095, 4096, 4097, 8191, 8192, 16384, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1]);
    lens.extend([(1 << 17) + 1, (1 << 18) - 1, (1 << 21) + 1, 16_384_000, (16 << 20) - 1, (16 << 20) + 1]);
    if !ctx.quick() {
        lens.extend([(4 << 20) + 1, (32 << 20) + 1, (64 << 20) + 5, (128 << 20) + 1]);
    }
    let zero = Mutex::new(0u64);
    ctx.part("contents", lens.len() as u64);
    ctx.par(lens.len(), |i| {
        ctx.case(|| format!("content/{i}"), || {
            let name = format!("c{i}.tsfile");
            let bytes = content(lens[i], i as u64 + 7);
            if digest(&bytes).len() < 64 {
                *zero.lock().unwrap() += 1;
            }
            put(&name, &bytes);
            let c = cs[i % cs.len()];
            let sch = [ser("d1", "s1", c.0, c.1, c.2)];
            let (out, r, _) = transfer(&name, "root.sg", &sch, None, None);
            let _ = std::fs::remove_file(&name);
            ctx.steps(r.steps.len());
            ctx.state(H::new().u(i as u64).u(22).get());
            agree(&out, Expect::Ok).map_err(|e| format!("transfer of {} bytes {e}; {:?} {:?}", bytes.len(), r.wrong, r.steps))?;
            received(&r, &name, &bytes, "root.sg", &sch)
        });
    });
    ctx.note("contents whose digest has a leading zero", zero.lock().unwrap());
    // every byte value in every position of a small file; two bytes
    ctx.part("bytes", 256 * 3);
    ctx.par(256 * 3, |q| {
        ctx.case(|| format!("bytes/{q}"), || {
            let name = format!("b{q}.tsfile");
            let mut bytes = b"TsF".to_vec();
            bytes[q / 256] = (q % 256) as u8;
            put(&name, &bytes);
            let sch = [ser("d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
            let (out, r, _) = transfer(&name, "root.sg", &sch, None, None);
            let _ = std::fs::remove_file(&name);
            ctx.steps(r.steps.len());
            ctx.state(H::new().u(q as u64).u(221).get());
            agree(&out, Expect::Ok).map_err(|e| format!("transfer of {bytes:?} {e}; {:?}", r.wrong))?;
            received(&r, &name, &bytes, "root.sg", &sch)
        });
    });
    // schemas, storage groups, names of files
    let names = ["x", "1654074550252-1-0-0.tsfile", "\u{e9}\u{1f600}.tsfile", "a b.tsfile", "mlog.bin", "0_0_x", ".hidden", "x.tsfile.resource"];
    let groups = ["root.sg", "", "root.\u{e9}", "root.a.b.c.d"];
    let wc = configs();
    let schemas: Vec<Vec<Ser>> = vec![
        vec![ser("d1", "s1", Ty::I32, Enc::Plain, Comp::Raw)],
        vec![ser("", "", Ty::F32, Enc::Plain, Comp::Snappy)],
        (0..wc.len()).map(|i| ser(["a", "b", "c"][i / 4], ["w", "x", "y", "z"][i % 4], wc[i].0, wc[i].1, wc[i].2)).collect(),
        grid(20, 20),
        grid(40, 60),
        vec![ser("a", "b.s", Ty::I32, Enc::Diff, Comp::Raw), ser("a.b", "s", Ty::I64, Enc::Diff, Comp::Snappy)],
        vec![],
    ];
    for (i, n) in names.iter().enumerate() {
        put(n, &content(50 + i, i as u64));
    }
    let total = names.len() * groups.len() * schemas.len();
    ctx.part("schemas, storage groups, names", total as u64);
    ctx.par(total, |q| {
        ctx.case(|| format!("schema/{q}"), || {
            let (i, q1) = (q % names.len(), q / names.len());
            let (g, s) = (groups[q1 % groups.len()], &schemas[q1 / groups.len()]);
            let (out, r, _) = transfer(names[i], g, s, None, None);
            ctx.steps(r.steps.len());
            ctx.state(H::new().u(q as u64).u(222).get());
            agree(&out, Expect::Ok).map_err(|e| format!("transfer of {:?} {e}; {:?}", names[i], r.wrong))?;
            received(&r, names[i], &content(50 + i, i as u64), g, s)
        });
    });
    // a file in another directory
    std::fs::create_dir_all("sub/dir").expect("scratch");
    for n in ["sub/x.tsfile", "sub/dir/y", "./z", "sub/../up"] {
        ctx.part("paths", 1);
        ctx.case(|| format!("path/{n}"), || {
            let b = content(40, n.len() as u64);
            put(n, &b);
            let base = n.rsplit('/').next().unwrap();
            put(base, b"another one");
            put(n, &b);
            let sch = [ser("d1", "s1", Ty::I64, Enc::Diff, Comp::Snappy)];
            let (out, r, _) = transfer(n, "root.sg", &sch, None, None);
            agree(&out, Expect::Ok)?;
            received_as(&r, &[&format!("0_0_{n}"), &format!("0_0_{base}")], &b, "root.sg", &sch)
        });
    }
    // a finished file of the writer
    ctx.case(|| "written".to_string(), || {
        let sch = [ser("d1", "s1", Ty::I64, Enc::Diff, Comp::Snappy)];
        let ops: Vec<Op> = (0..500).map(|i| Op::W("d1", "s1", i, Val::L(i * i))).collect();
        let bytes = crate::drive::file_of(&sch, &ops)?;
        put("w.tsfile", &bytes);
        let (out, r, _) = transfer("w.tsfile", "root.sg", &sch, None, None);
        agree(&out, Expect::Ok)?;
        received(&r, "w.tsfile", &bytes, "root.sg", &sch)
    });
    // faults at every step
    let sch = vec![ser("d1", "s1", Ty::I32, Enc::Plain, Comp::Raw), ser("d2", "s1", Ty::F32, Enc::Plain, Comp::Snappy)];
    let file = "fault.tsfile";
    let bytes = content(300, 3);
    put(file, &bytes);
    let (out, r0, seen0) = transfer(file, "root.sg", &sch, None, None);
    let nreq = seen0.frames.len();
    ctx.case(|| "undisturbed".to_string(), || {
        agree(&out, Expect::Ok).map_err(|e| format!("{e}; {:?} {:?}", r0.wrong, r0.steps))?;
        received(&r0, file, &bytes, "root.sg", &sch)
    });
    ctx.note("requests of a transfer", nreq);
    ctx.note("steps", format!("{:?}", r0.steps));
    let all: Vec<Arc<Kind>> = kinds(!ctx.quick()).into_iter().map(Arc::new).collect();
    ctx.part("answers at every step", (nreq * all.len()) as u64);
    ctx.par(nreq * all.len(), |q| {
        let (at, k) = (q % nreq, &all[q / nreq]);
        ctx.case(|| format!("answer/{at}/{}", q / nreq), || {
            let (out, r, seen) = transfer(file, "root.sg", &sch, Some((at, k.clone())), None);
            ctx.steps(r.steps.len());
            ctx.state(H::new().u(q as u64).u(223).get());
            let m = seen.frames.get(at).ok_or_else(|| format!("request {at} never came"))?;
            let (n, _, s, _) = head(m)?;
            let want = demand(k, &n, s);
            ctx.outcome(&format!("{want:?}"));
            agree(&out, want).map_err(|e| format!("request {at} ({}) answered [{}]: the transfer {e}", String::from_utf8_lossy(&n), k.label))?;
            if out == Out::Ok {
                received(&r, file, &bytes, "root.sg", &sch)?;
            }
            Ok(())
        });
    });
    // the same for files, metadata logs and groups of every class: empty, short digests, large
    let mut short: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    for n in 0..20000usize {
        let b = format!("{n}").into_bytes();
        short.entry(digest(&b).len()).or_insert(b);
    }
    let mut contents: Vec<Vec<u8>> = vec![vec![], vec![0], content(1, 1), content(70_000, 2), content(1 << 20, 9), b"TsFile\x03".to_vec()];
    contents.extend(short.into_values());
    let mut logs: BTreeMap<usize, Vec<Ser>> = BTreeMap::new();
    for n in 0..2000usize {
        let s = vec![ser(leak(format!("d{n}")), "s", Ty::I32, Enc::Plain, Comp::Raw)];
        logs.entry(mlog_digest("root.sg", &s)).or_insert(s);
    }
    let mut schs: Vec<Vec<Ser>> = logs.into_values().collect();
    schs.extend([vec![], grid(9, 9)]);
    let refusals: Vec<Arc<Kind>> = all.iter().filter(|k| k.want == Expect::Err).step_by(ctx.pick(40, 5)).cloned().chain([-1, 0, 2].map(|c| Arc::new(code_kind(c, b"no", false)))).collect();
    for (i, b) in contents.iter().enumerate() {
        put(&format!("class{i}"), b);
    }
    let combos: Vec<(usize, usize, &str)> = (0..contents.len()).flat_map(|c| (0..schs.len()).map(move |s| (c, s, "root.sg"))).chain([(6, 0, ""), (0, 0, "")]).collect();
    ctx.part("refusals for every class of file and schema", (combos.len() * nreq * refusals.len()) as u64);
    ctx.par(combos.len() * nreq, |q| {
        let ((c, s, g), at) = (combos[q / nreq], q % nreq);
        ctx.case(|| format!("class/{q}"), || {
            for k in &refusals {
                let (out, r, seen) = transfer(&format!("class{c}"), g, &schs[s], Some((at, k.clone())), None);
                ctx.steps(r.steps.len());
                if seen.frames.len() <= at {
                    // fewer requests than for other files
                    continue;
                }
                let (n, _, seq, _) = head(&seen.frames[at])?;
                agree(&out, demand(k, &n, seq)).map_err(|e| format!("file of {} bytes, request {at} ({}) answered [{}]: the transfer {e}", contents[c].len(), String::from_utf8_lossy(&n), k.label))?;
            }
            ctx.state(H::new().u(q as u64).u(227).get());
            let (out, r, _) = transfer(&format!("class{c}"), g, &schs[s], None, None);
            agree(&out, Expect::Ok).map_err(|e| format!("transfer {e}; {:?}", r.wrong))?;
            received(&r, &format!("class{c}"), &contents[c], g, &schs[s])?;
            // the connection is lost instead of the answer
            for t in [Then::Fin, Then::Rst] {
                let mut k = kind("none", Expect::Err, |_, _| vec![]);
                k.then = t;
                let (out, _, seen) = transfer(&format!("class{c}"), g, &schs[s], Some((at, Arc::new(k))), None);
                if seen.frames.len() <= at {
                    continue;
                }
                agree(&out, Expect::Err).map_err(|e| format!("file of {} bytes, connection lost after request {at}: the transfer {e}", contents[c].len()))?;
            }
            Ok(())
        });
    });
    // a receiver that does not do what it refuses, and agrees to anything that comes afterwards, over
    // this connection or another one: it was refused all the same
    let refusing: Vec<Arc<Kind>> = all.iter().filter(|k| k.want == Expect::Err).cloned().collect();
    let steps: Vec<(usize, usize)> = (0..nreq).flat_map(|at| [1usize, 2, 5].map(|n| (at, n))).collect();
    let yes = |m: &Msg| go(reply(&m.name, m.seq, 1));
    ctx.part("refused at first, everything agreed to later", (refusing.len() * steps.len() + nreq * 8) as u64);
    ctx.par(refusing.len() * steps.len(), |q| {
        let ((at, n), k) = (steps[q % steps.len()], refusing[q / steps.len()].clone());
        ctx.case(|| format!("later/{at}/{n}/{}", q / steps.len()), || {
            let k2 = k.clone();
            let script = Script {
                cut: None,
                shut: None,
                again: true,
                handler: Box::new(move |i, f| match decode(f) {
                    Ok(m) if (at..at + n).contains(&i) => k2.answer(&m.name, m.seq, false),
                    Ok(m) => yes(&m),
                    Err(_) => hang_up(),
                }),
            };
            let (out, seen) = send(script, file, "root.sg", &sch);
            ctx.steps(seen.frames.len());
            ctx.state(H::new().u(q as u64).u(228).get());
            agree(&out, Expect::Err).map_err(|e| format!("request {at} answered [{}], {n} times, the requests after that accepted: the transfer {e}", k.label))
        });
    });
    ctx.par(nreq * 8, |q| {
        let (at, q1) = (q % nreq, q / nreq);
        let (t, how) = ([Then::Fin, Then::Rst][q1 % 2], q1 / 2);
        ctx.case(|| format!("later/lost/{at}/{how}/{t:?}"), || {
            let len = seen0.frames[at].len();
            // within the request, or instead of the answer
            let cut = match how {
                0 => Some((at, 0, t)),
                1 => Some((at, len / 2, t)),
                2 => Some((at, len + 4, t)),
                _ => None,
            };
            let script = Script {
                cut,
                shut: None,
                again: true,
                handler: Box::new(move |i, f| match decode(f) {
                    Ok(_) if how == 3 && i == at => Answer { bytes: vec![0, 0], split: false, then: t, brief: false },
                    Ok(m) => yes(&m),
                    Err(_) => hang_up(),
                }),
            };
            let (out, seen) = send(script, file, "root.sg", &sch);
            ctx.steps(seen.frames.len());
            ctx.outcome(&format!("{} connections", seen.connections));
            agree(&out, Expect::Err).map_err(|e| format!("connection lost at request {at} ({how}), another one possible: the transfer {e}"))
        });
    });
    negative_cases(ctx, |k| {
        for at in 0..nreq {
            let (out, _, _) = transfer(file, "root.sg", &sch, Some((at, k.clone())), None);
            agree(&out, Expect::Err).map_err(|e| format!("request {at} answered [{}]: the transfer {e}", k.label))?;
        }
        Ok(())
    });
    // two answers disturbed: the first is still fine, the second is not (and the other way round)
    let fine: Vec<usize> = (0..all.len()).filter(|i| all[*i].want == Expect::Ok).step_by(ctx.pick(9, 2)).collect();
    // the connection is lost after every byte of every request
    let mut cuts = vec![];
    for (k, f) in seen0.frames.iter().enumerate() {
        for b in 0..f.len() + 4 {
            cuts.push((k, b));
        }
    }
    ctx.part("connection lost within every request", (cuts.len() * 2) as u64);
    ctx.par(cuts.len() * 2, |q| {
        let (k, b) = cuts[q / 2];
        let t = [Then::Fin, Then::Rst][q % 2];
        ctx.case(|| format!("lost/{k}/{b}/{t:?}"), || {
            let (out, r, _) = transfer(file, "root.sg", &sch, None, Some((k, b, t)));
            ctx.steps(r.steps.len());
            ctx.state(H::new().u(q as u64).u(224).get());
            agree(&out, Expect::Err).map_err(|e| format!("connection lost after {b} bytes of request {k}: the transfer {e}"))
        });
    });
    ctx.part("large file, connection lost", 64);
    put("large", &content(3 << 20, 5));
    let (_, _, big) = transfer("large", "root.sg", &sch, None, None);
    let sizes: Vec<usize> = big.frames.iter().map(|f| f.len()).collect();
    ctx.par(64, |q| {
        ctx.case(|| format!("large/{q}"), || {
            let mut n = sizes.iter().sum::<usize>() / 64 * q + q;
            let mut at = 0;
            while n >= sizes[at] {
                n -= sizes[at];
                at += 1;
            }
            let (out, r, _) = transfer("large", "root.sg", &sch, None, Some((at, n, Then::Rst)));
            ctx.steps(r.steps.len());
            agree(&out, Expect::Err).map_err(|e| format!("connection lost after {n} bytes of the file: the transfer {e}"))
        });
    });
    // the receiver stores something else and says so, or notices nothing was meant to be there
    ctx.part("unusual answers that accept, at every step", (nreq * fine.len()) as u64);
    ctx.par(fine.len(), |i| {
        ctx.case(|| format!("fine/{i}"), || {
            // all steps are answered in this unusual but accepting way
            let k = all[fine[i]].clone();
            let rec = Arc::new(Mutex::new(Receiver::default()));
            let r2 = rec.clone();
            let k2 = k.clone();
            let script = Script {
                cut: None,
                shut: None,
                again: false,
                handler: Box::new(move |_, f| match decode(f) {
                    Ok(m) => {
                        r2.lock().unwrap().handle(&m);
                        k2.answer(&m.name, m.seq, false)
                    }
                    Err(_) => hang_up(),
                }),
            };
            let (out, _) = with_server(script, |a| match open(a, Some("a"), Some(UUID)) {
                Ok(mut s) => match catch_unwind(AssertUnwindSafe(|| sync(&mut s, file, "root.sg", build_schema(&sch)))) {
                    Ok(Ok(())) => Out::Ok,
                    Ok(Err(e)) => Out::Err(format!("{e:?}")),
                    Err(p) => Out::Panic(panic_text(&*p)),
                },
                Err(o) => o,
            });
            let r = std::mem::take(&mut *rec.lock().unwrap());
            ctx.steps(r.steps.len());
            agree(&out, Expect::Ok).map_err(|e| format!("all requests answered [{}]: the transfer {e}", k.label))?;
            received(&r, file, &bytes, "root.sg", &sch)
        });
    });
    // files that cannot be read
    std::fs::create_dir_all("directory").expect("scratch");
    for n in ["missing", "directory", "", "directory/missing", "\0", "x/y"] {
        ctx.part("unreadable files", 1);
        ctx.case(|| format!("unreadable/{n:?}"), || {
            let (out, r, _) = transfer(n, "root.sg", &sch, None, None);
            ctx.steps(r.steps.len());
            ctx.state(H::new().s(n).u(225).get());
            agree(&out, Expect::Err).map_err(|e| format!("transfer of {n:?} {e}"))
        });
    }
    // two transfers over one connection
    ctx.part("two transfers over one connection", (nreq * 2) as u64);
    for at in 0..nreq * 2 {
        ctx.case(|| format!("two/{at}"), || {
            let rec = Arc::new(Mutex::new((Receiver::default(), vec![])));
            let r2 = rec.clone();
            let script = Script {
                cut: None,
                shut: None,
                again: false,
                handler: Box::new(move |i, f| match decode(f) {
                    Ok(m) => {
                        let mut g = r2.lock().unwrap();
                        if m.name == b"startSync" && i > 1 {
                            let old = std::mem::take(&mut g.0);
                            g.1.push(old);
                        }
                        let mut code = g.0.handle(&m);
                        if i == at {
                            code = -1;
                        }
                        go(reply(&m.name, m.seq, code))
                    }
                    Err(_) => hang_up(),
                }),
            };
            put(&format!("t{at}a"), b"first");
            put(&format!("t{at}b"), b"second");
            let (outs, _) = with_server(script, |a| match open(a, Some("a"), Some(UUID)) {
                Ok(mut s) => ["a", "b"]
                    .iter()
                    .map(|x| match catch_unwind(AssertUnwindSafe(|| sync(&mut s, &format!("t{at}{x}"), "root.sg", build_schema(&sch)))) {
                        Ok(Ok(())) => Out::Ok,
                        Ok(Err(e)) => Out::Err(format!("{e:?}")),
                        Err(p) => Out::Panic(panic_text(&*p)),
                    })
                    .collect::<Vec<_>>(),
                Err(o) => vec![o],
            });
            ctx.steps(2 * nreq);
            ctx.state(H::new().u(at as u64).u(226).get());
            if let Some(Out::Panic(p)) = outs.iter().find(|o| matches!(o, Out::Panic(_))) {
                return Err(format!("panics: {p}"));
            }
            let second = 2 * nreq - 1; // requests of two undisturbed transfers: 0..second
            let want: Vec<bool> = match at {
                0 => vec![false],
                a if a < nreq => vec![false],
                a if a < second => vec![true, false],
                _ => vec![true, true],
            };
            for (i, w) in want.iter().enumerate() {
                let got = matches!(outs.get(i), Some(Out::Ok));
                if got != *w {
                    return Err(format!("request {at} refused: results {outs:?}"));
                }
            }
            let g = rec.lock().unwrap();
            if want == [true, true] {
                received(&g.1[0], &format!("t{at}a"), b"first", "root.sg", &sch)?;
                received(&g.0, &format!("t{at}b"), b"second", "root.sg", &sch)?;
            }
            Ok(())
        });
    }
    let _ = std::env::set_current_dir("/");
}
