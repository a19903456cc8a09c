//! C24: the Python classes of tsfile-writer-c/rust.py, driven in an interpreter that fills freed memory.
use crate::c_capi::{c_names, series, NAMED};
use crate::c_write::{pat_val, Pat};
use crate::ctx::{Ctx, H};
use crate::drive::*;
use crate::model::*;
use crate::oracle::R;
use crate::sys::Scratch;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum L {
    Schema(u8),
    Free(u8),
    /// forget the object without freeing it
    Drop(u8),
    Writer(u8),
    Write(u8),
    Many(u8),
    /// values and timestamps that do not fit
    Bad(u8),
    Close(u8),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    None,
    Live,
    Freed,
}

#[derive(Clone)]
struct Shape {
    schemas: [S; 2],
    made: u8,
    writers: Vec<bool>,
}

impl Shape {
    fn new() -> Shape {
        Shape { schemas: [S::None; 2], made: 0, writers: vec![] }
    }
    /// Every letter that can be tried here, also the ones that have to raise
    fn letters(&self) -> Vec<L> {
        let mut v = vec![];
        for i in 0..2u8 {
            let s = self.schemas[i as usize];
            if s != S::Live && self.made < 3 && (i == 0 || self.schemas[0] != S::None) {
                v.push(L::Schema(i));
            }
            if s != S::None {
                v.push(L::Free(i));
                if self.writers.len() < 3 {
                    v.push(L::Writer(i));
                }
            }
            if s == S::Live {
                v.push(L::Drop(i));
            }
        }
        for (j, w) in self.writers.iter().enumerate() {
            let j = j as u8;
            v.push(L::Write(j));
            v.push(L::Close(j));
            if *w {
                v.push(L::Many(j));
                v.push(L::Bad(j));
            }
        }
        v
    }
    /// whether the letter succeeds, and the state after it
    fn after(&self, l: L) -> (bool, Shape) {
        let mut s = self.clone();
        let ok = match l {
            L::Schema(i) => {
                s.schemas[i as usize] = S::Live;
                s.made += 1;
                true
            }
            L::Free(i) => {
                let ok = s.schemas[i as usize] == S::Live;
                s.schemas[i as usize] = S::Freed;
                ok
            }
            L::Drop(i) => {
                s.schemas[i as usize] = S::None;
                true
            }
            L::Writer(i) => {
                let ok = s.schemas[i as usize] == S::Live;
                if ok {
                    s.writers.push(true);
                }
                ok
            }
            L::Write(j) => s.writers[j as usize],
            L::Many(_) => true,
            L::Bad(_) => false,
            L::Close(j) => {
                let ok = s.writers[j as usize];
                s.writers[j as usize] = false;
                ok
            }
        };
        (ok, s)
    }
}

fn walk(depth: usize, shape: &Shape, cur: &mut Vec<L>, f: &mut dyn FnMut(&[L])) {
    if cur.len() == depth {
        f(cur);
        return;
    }
    for l in shape.letters() {
        cur.push(l);
        walk(depth, &shape.after(l).1, cur, f);
        cur.pop();
    }
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.encode_utf16() {
        match char::from_u32(c as u32) {
            Some(c) if c.is_ascii_alphanumeric() || "/._- ".contains(c) => o.push(c),
            _ => o.push_str(&format!("\\u{:04x}", c)),
        }
    }
    o.push('"');
    o
}

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    home: String,
}

impl Worker {
    fn start(home: &str) -> R<Worker> {
        let h = |e: std::io::Error| format!("harness: {e}");
        let root = std::env::var("TSMC_ROOT").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").to_string());
        let exe = std::env::current_exe().map_err(h)?;
        let so = exe.parent().unwrap().join("deps/libtsfile_capi_shim.so");
        if !so.exists() {
            return Err(format!("harness: {} is missing", so.display()));
        }
        let dir = format!("{home}/tsfile-writer-c");
        if !std::path::Path::new(&dir).exists() {
            std::fs::create_dir_all(&dir).map_err(h)?;
            for e in std::fs::read_dir("/repo/tsfile-writer-c").map_err(h)? {
                let p = e.map_err(h)?.path();
                if p.extension().map_or(false, |x| x == "py") {
                    std::fs::copy(&p, format!("{dir}/{}", p.file_name().unwrap().to_str().unwrap())).map_err(h)?;
                }
            }
            for t in ["release", "debug"] {
                std::fs::create_dir_all(format!("{home}/target/{t}")).map_err(h)?;
                for x in ["dylib", "so"] {
                    std::os::unix::fs::symlink(&so, format!("{home}/target/{t}/libtsfile_writer_c.{x}")).map_err(h)?;
                }
            }
        }
        let err = std::fs::File::create(format!("{home}/stderr")).map_err(h)?;
        let mut child = Command::new("python3-vt")
            .args([format!("{root}/py/worker.py"), dir.clone()])
            .current_dir(&dir)
            .env("PYTHONMALLOC", "debug")
            .env("MALLOC_PERTURB_", "165")
            .env("PYTHONHASHSEED", "0")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(err)
            .spawn()
            .map_err(h)?;
        Ok(Worker { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), child, home: home.to_string() })
    }

    fn ask(&mut self, request: &str) -> R<Vec<String>> {
        let _ = self.to.write_all(request.as_bytes());
        let _ = self.to.write_all(b"\n");
        let mut line = String::new();
        let n = self.from.read_line(&mut line).unwrap_or(0);
        if n == 0 {
            let st = self.child.wait();
            let e = std::fs::read_to_string(format!("{}/stderr", self.home)).unwrap_or_default();
            let e: String = e.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
            return Err(format!("the interpreter ended ({st:?}): {e}"));
        }
        if line.contains("harness: ") {
            return Err(line.trim().to_string());
        }
        Ok(line.trim().trim_matches(|c| c == '[' || c == ']').split(", ").map(|s| s.trim_matches('"').to_string()).collect())
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

fn ask(dir: &Scratch, request: &str) -> R<Vec<String>> {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            *w = Some(Worker::start(&home(dir))?);
        }
        let r = w.as_mut().unwrap().ask(request);
        if r.is_err() {
            *w = None;
        }
        r
    })
}

/// a directory of this thread
fn home(dir: &Scratch) -> String {
    let p = dir.path(&format!("{:?}", std::thread::current().id()).replace(['(', ')'], "-"));
    let _ = std::fs::create_dir_all(&p);
    p
}

/// The i-th timestamp of a writer: small steps, or over every power of two
pub fn next(last: Option<i64>, j: usize, i: usize, far: bool) -> i64 {
    let t = match last {
        None => j as i64,
        Some(t) => t,
    };
    if !far {
        return if last.is_none() { t } else { t + 1 + (i % 3) as i64 };
    }
    const AT: [i64; 12] = [0, 1, 127, 65_535, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 1_654_074_550_252, (1 << 53) + 1, 1 << 62, i64::MAX - 9_000_000];
    match AT.get(i) {
        Some(a) => *a,
        None => t + 1,
    }
}

pub fn value(i: usize, j: usize) -> i32 {
    const V: [i32; 8] = [0, -1, i32::MAX, i32::MIN, 1, 255, -65_536, 1 << 30];
    match i % 3 {
        0 => V[(i / 3 + j) % 8],
        _ => match pat_val(Ty::I32, Pat::Noise, i * 7 + j) {
            Val::I(v) => v,
            _ => unreachable!(),
        },
    }
}

fn points(p: &[(i64, i32)]) -> String {
    let v: Vec<String> = p.iter().map(|(t, v)| format!("[{t}, {v}]")).collect();
    format!("[{}]", v.join(", "))
}

fn expected(k: usize, pts: &[(i64, i32)]) -> R<Vec<u8>> {
    let s = series(k);
    let ops: Vec<Op> = pts.iter().map(|(t, v)| Op::W(s.dev, s.sen, *t, Val::I(*v))).collect();
    file_of(&[s], &ops)
}

fn same(path: &str, k: usize, pts: &[(i64, i32)], what: &str) -> R<()> {
    let got = std::fs::read(path).map_err(|e| format!("{what}: {e}"))?;
    let want = expected(k, pts)?;
    if got != want {
        let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("{what}: file of {} bytes, through the Rust interface {} bytes; they differ from byte {at} on", got.len(), want.len()));
    }
    Ok(())
}

struct Program {
    req: Vec<String>,
    want: Vec<bool>,
    /// series, points and path of each writer
    ws: Vec<(usize, Vec<(i64, i32)>, String)>,
}

/// The operations of a sequence; writers that are left open are closed, and all schemas freed if `free`
fn program(ctx: &Ctx, home: &str, seq: &[L], many: usize, salt: usize, free: bool) -> Program {
    let mut sh = Shape::new();
    let (mut req, mut want): (Vec<String>, Vec<bool>) = (vec![], vec![]);
    let mut slots = [0usize; 2];
    let mut made = salt;
    let mut ws: Vec<(usize, Vec<(i64, i32)>, String)> = vec![];
    let mut all = seq.to_vec();
    let end = seq.iter().fold(sh.clone(), |s, l| s.after(*l).1);
    all.extend(end.writers.iter().enumerate().filter(|w| *w.1).map(|(j, _)| L::Close(j as u8)));
    if free {
        all.extend((0..2).filter(|i| end.schemas[*i as usize] == S::Live).map(L::Free));
    }
    for l in &all {
        let (ok, after) = sh.after(*l);
        match *l {
            L::Schema(i) => {
                let s = series(made);
                req.push(format!("[\"schema\", {i}, {}, {}, {}, {}, {}]", q(s.dev), q(s.sen), s.ty.code(), s.enc.code(), s.comp.code()));
                slots[i as usize] = made;
                made += 1;
            }
            L::Free(i) => req.push(format!("[\"free\", {i}]")),
            L::Drop(i) => req.push(format!("[\"drop\", {i}]")),
            L::Writer(i) => {
                let path = format!("{home}/{}.tsfile", if ok { ws.len() } else { 9 });
                req.push(format!("[\"writer\", {}, {i}, {}]", if ok { ws.len() } else { 9 }, q(&path)));
                if ok {
                    ws.push((slots[i as usize], vec![], path));
                }
            }
            L::Write(j) | L::Many(j) => {
                let n = if matches!(l, L::Many(_)) { many } else { 1 };
                let (k, pts, _) = &mut ws[j as usize];
                let mut new = vec![];
                for _ in 0..n {
                    let i = pts.len() + new.len();
                    let last = new.last().or(pts.last()).map(|p: &(i64, i32)| p.0);
                    new.push((next(last, j as usize, i, salt % 2 == 1), value(i, j as usize)));
                }
                let s = series(*k);
                req.push(format!("[\"write\", {j}, {}, {}, {}]", q(s.dev), q(s.sen), points(&new)));
                if ok {
                    pts.extend(new);
                }
            }
            L::Bad(j) => {
                let (k, pts, _) = &ws[j as usize];
                let t = pts.last().map_or(0, |p| p.0) + 1;
                let s = series(*k);
                for p in [
                    format!("{t}, 2147483648"), format!("{t}, -2147483649"), format!("{t}, 18446744073709551616"), "9223372036854775808, 1".to_string(),
                    "18446744073709551616, 1".to_string(), format!("\"{t}\", 1"), format!("{t}, null"), format!("{t}, 1.5"),
                ] {
                    req.push(format!("[\"write\", {j}, {}, {}, [[{p}]]]", q(s.dev), q(s.sen)));
                    want.push(false);
                }
                sh = after;
                continue;
            }
            L::Close(j) => req.push(format!("[\"close\", {j}]")),
        }
        want.push(ok);
        sh = after;
        let mut h = H::new();
        h.s(&format!("{:?}", sh.schemas)).u(made as u64);
        for w in &ws {
            h.u(w.0 as u64).u(w.1.len() as u64);
        }
        for w in &sh.writers {
            h.u(*w as u64);
        }
        ctx.state(h.get());
    }
    Program { req, want, ws }
}

/// All legal programs of this length (nothing is forgotten), with everything closed and freed at the end,
/// as requests to an interpreter
pub fn lifetimes(ctx: &Ctx, depth: usize) -> Vec<Vec<String>> {
    let mut all = vec![];
    walk(depth, &Shape::new(), &mut vec![], &mut |s| {
        let live = |i: u8, at: usize| s[..at].iter().fold(Shape::new(), |h, l| h.after(*l).1).schemas[i as usize] == S::Live;
        let lost = s.iter().enumerate().any(|(at, l)| matches!(l, L::Drop(i) if live(*i, at)));
        if !lost {
            all.push(s.to_vec());
        }
    });
    all.iter().map(|s| program(ctx, "HOME", s, 3, depth, true).req).collect()
}

/// What the interpreter holds (open files, bytes) after it performed this program `n` times
pub fn repeat(dir: &Scratch, req: &[String], n: usize) -> R<(usize, isize)> {
    let ops = req.join(", ").replace("HOME", &home(dir));
    let r = ask(dir, &format!("{{\"repeat\": {n}, \"ops\": [{ops}]}}"))?;
    match (r.first().map(|x| x.parse()), r.get(1).map(|x| x.parse())) {
        (Some(Ok(f)), Some(Ok(b))) => Ok((f, b)),
        _ => Err(format!("harness: {r:?}")),
    }
}

fn sequence(ctx: &Ctx, dir: &Scratch, seq: &[L], many: usize, salt: usize) -> R<()> {
    let Program { req, want, ws } = program(ctx, &home(dir), seq, many, salt, false);
    ctx.steps(req.len());
    let got = ask(dir, &format!("[{}]", req.join(", ")))?;
    if got.len() != want.len() {
        return Err(format!("harness: {} answers to {} operations", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if (g == "ok") != *w {
            let mut o = req[i].clone();
            o.truncate(o.char_indices().nth(200).map_or(o.len(), |x| x.0));
            return Err(format!("operation {i} {o}: {g}, {}", if *w { "should succeed" } else { "should raise an exception" }));
        }
    }
    for (j, (k, pts, path)) in ws.iter().enumerate() {
        same(path, *k, pts, &format!("writer {j}"))?;
        let _ = std::fs::remove_file(path);
    }
    Ok(())
}

/// `n` points in a with block that is left before point `stop`
fn with(ctx: &Ctx, dir: &Scratch, k: usize, n: usize, stop: usize, far: bool) -> R<()> {
    let path = format!("{}/with.tsfile", home(dir));
    let s = series(k);
    let mut pts: Vec<(i64, i32)> = vec![];
    for i in 0..n {
        pts.push((next(pts.last().map(|p| p.0), 0, i, far), value(i, k)));
    }
    let r = ask(dir, &format!(
        "[[\"with\", {}, {}, {}, {}, {}, {}, {}, {stop}]]",
        q(&path), q(s.dev), q(s.sen), s.ty.code(), s.enc.code(), s.comp.code(), points(&pts)
    ))?;
    ctx.steps(n + 5);
    let want = if stop < n { "Planned" } else { "ok" };
    if r != [want] {
        return Err(format!("a with block of {n} points, left before point {stop}, ends with {r:?}, not {want}"));
    }
    pts.truncate(stop);
    same(&path, k, &pts, "with block")?;
    let _ = std::fs::remove_file(&path);
    Ok(())
}

pub fn c24(ctx: &Ctx) {
    let dir = Scratch::new("c24");
    let v = if ctx.small { "small" } else { "real" };
    let m = if ctx.small { 9 } else { 40 };
    // every program, depth first
    for depth in 1..=ctx.pick(6usize, 7) {
        let mut all: Vec<Vec<L>> = vec![];
        walk(depth, &Shape::new(), &mut vec![], &mut |s| {
            if s.iter().any(|l| matches!(l, L::Writer(_))) {
                all.push(s.to_vec());
            }
        });
        ctx.part(&format!("{v}: programs of length {depth}"), all.len() as u64);
        ctx.par(all.len(), |k| {
            ctx.case(|| format!("{v}/seq/{depth}/{k}"), || sequence(ctx, &dir, &all[k], m, depth + 3).map_err(|e| format!("{e} -- {:?}", all[k])));
        });
        if depth == 3 {
            if let Some(s) = all.last() {
                ctx.sample(|| format!("{s:?}"));
            }
        }
    }
    // blocks left at every point
    let n = ctx.pick(13, 30);
    ctx.part(&format!("{v}: with blocks"), (n * (n + 1) * 8) as u64);
    ctx.par(n * (n + 1) * 8, |k| {
        let (cfg, far, stop, len) = (k % 4, k / 4 % 2 == 1, k / 8 % (n + 1), k / 8 / (n + 1));
        ctx.case(|| format!("{v}/with/{cfg}/{far}/{len}/{stop}"), || with(ctx, &dir, cfg, len, stop, far));
    });
    // names
    let n = c_names().len();
    let step = ctx.pick(if ctx.small { 7 } else { 1 }, 1);
    ctx.part(&format!("{v}: pairs of unusual names"), (n * n / step) as u64);
    ctx.par(n * n / step, |k| {
        let k = k * step;
        let seq = [L::Schema(0), L::Writer(0), L::Write(0), L::Write(0), L::Many(0), L::Free(0), L::Write(0), L::Close(0)];
        ctx.case(|| format!("{v}/names/{k}"), || sequence(ctx, &dir, &seq, 5, NAMED + k).map_err(|e| format!("{e} -- {:?}", series(NAMED + k))));
    });
    // long programs
    let lens = if ctx.small { [48usize, 47, 200, 1000] } else { [20_000, 33_000, 70_000, 16_384] };
    ctx.part(&format!("{v}: long programs"), 24);
    ctx.par(24, |k| {
        let seq = [L::Schema(0), L::Writer(0), L::Writer(0), L::Many(0), L::Write(1), L::Free(0), L::Write(1), L::Write(0), L::Close(1), L::Many(0)];
        ctx.case(|| format!("{v}/long/{k}"), || sequence(ctx, &dir, &seq, lens[k / 6], k % 6));
    });
}
