//! C23: the C interface, driven in child processes (a panic in it aborts).
use crate::ctx::{Ctx, H};
use crate::drive::*;
use crate::model::*;
use crate::oracle::R;
use crate::sys::Scratch;
use std::collections::HashMap;
use std::ffi::{c_char, CString};
use std::os::unix::fs::FileExt;
use tsfile_capi_shim as capi;

/// A letter of the alphabet
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum L {
    /// create a schema in this slot
    Schema(u8),
    Free(u8),
    /// writer on the schema in this slot, in the next free place
    Writer(u8),
    Write(u8),
    /// several writes
    Many(u8),
    Close(u8),
    Null,
}

/// from here on, schemas are named by the pairs of `c_names`
pub const NAMED: usize = 1 << 20;

/// the unusual names a C string can hold
pub fn c_names() -> &'static [Name] {
    static N: std::sync::OnceLock<Vec<Name>> = std::sync::OnceLock::new();
    N.get_or_init(|| crate::hist::names().into_iter().filter(|s| !s.contains('\0')).collect())
}

/// series by number of schema
pub fn series(k: usize) -> Ser {
    let names: [(Name, Name); 6] = [("d1", "s1"), ("d1", "s2"), ("d2", "s1"), ("root.sg.\u{e9}", "t"), ("d", ""), ("d1", "s1")];
    let cfg = [(Enc::Plain, Comp::Raw), (Enc::Diff, Comp::Snappy), (Enc::Plain, Comp::Snappy), (Enc::Diff, Comp::Raw)];
    let (d, s) = if k >= NAMED {
        let n = c_names();
        (n[(k - NAMED) % n.len()], n[(k - NAMED) / n.len() % n.len()])
    } else {
        names[k % names.len()]
    };
    let (e, c) = cfg[k % 4];
    ser(d, s, Ty::I32, e, c)
}

#[derive(Clone, Default)]
struct Shape {
    schemas: [bool; 2],
    writers: Vec<bool>,
    nulls: u8,
}

impl Shape {
    fn open(&self) -> usize {
        self.writers.iter().filter(|w| **w).count()
    }
    fn legal(&self) -> Vec<L> {
        let mut v = vec![];
        for i in 0..2u8 {
            if self.schemas[i as usize] {
                v.push(L::Free(i));
                if self.open() < 2 && self.writers.len() < 4 {
                    v.push(L::Writer(i));
                }
            } else if i == 0 || self.schemas[0] {
                v.push(L::Schema(i));
            }
        }
        for (j, w) in self.writers.iter().enumerate() {
            if *w {
                v.push(L::Write(j as u8));
                v.push(L::Many(j as u8));
                v.push(L::Close(j as u8));
            }
        }
        if self.nulls == 0 {
            v.push(L::Null);
        }
        v
    }
    fn after(&self, l: L) -> Shape {
        let mut s = self.clone();
        match l {
            L::Schema(i) => s.schemas[i as usize] = true,
            L::Free(i) => s.schemas[i as usize] = false,
            L::Writer(_) => s.writers.push(true),
            L::Close(j) => s.writers[j as usize] = false,
            L::Null => s.nulls = 1,
            _ => {}
        }
        s
    }
}

/// All legal sequences of this length, in a fixed order
fn walk(depth: usize, shape: &Shape, cur: &mut Vec<L>, f: &mut dyn FnMut(&[L])) {
    if cur.len() == depth {
        f(cur);
        return;
    }
    for l in shape.legal() {
        cur.push(l);
        walk(depth, &shape.after(l), cur, f);
        cur.pop();
    }
}

/// A buffer whose content is only valid during a call
struct Buf(Box<[u8; 256]>);
impl Buf {
    fn set(&mut self, s: &str) -> *const c_char {
        self.0[..s.len()].copy_from_slice(s.as_bytes());
        self.0[s.len()] = 0;
        self.0.as_ptr() as *const c_char
    }
    fn trash(&mut self, with: u8) {
        self.0[..255].fill(with);
        self.0[255] = 0;
    }
}

struct Run {
    dir: String,
    cache: HashMap<(usize, Vec<(i64, i32)>), Vec<u8>>,
    states: std::collections::HashSet<u64>,
    steps: usize,
    dev: Buf,
    sen: Buf,
}

impl Run {
    fn expected(&mut self, k: usize, pts: &[(i64, i32)]) -> R<&Vec<u8>> {
        let key = (k, pts.to_vec());
        if !self.cache.contains_key(&key) {
            if self.cache.len() > 20000 {
                self.cache.clear();
            }
            let s = series(k);
            let ops: Vec<Op> = pts.iter().map(|(t, v)| Op::W(s.dev, s.sen, *t, Val::I(*v))).collect();
            let b = file_of(&[s], &ops)?;
            self.cache.insert(key.clone(), b);
        }
        Ok(&self.cache[&key])
    }

    fn sequence(&mut self, seq: &[L], many: usize, salt: usize) -> R<()> {
        let mut slots: [Option<(usize, *mut tsfile_writer::writer::Schema<'static>)>; 2] = [None, None];
        let mut made = salt;
        type Wr = *mut tsfile_writer::writer::tsfile_writer::TsFileWriter<'static, tsfile_writer::writer::WriteWrapper<std::fs::File>>;
        struct Open {
            w: Option<Wr>,
            k: usize,
            pts: Vec<(i64, i32)>,
            path: String,
        }
        // the strings of schemas stay valid
        let mut keep: Vec<CString> = vec![];
        let mut ws: Vec<Open> = vec![];
        let mut all: Vec<L> = seq.to_vec();
        let mut sh = Shape::default();
        for l in seq {
            sh = sh.after(*l);
        }
        for (j, w) in sh.writers.iter().enumerate() {
            if *w {
                all.push(L::Close(j as u8));
            }
        }
        for i in 0..2 {
            if sh.schemas[i] {
                all.push(L::Free(i as u8));
            }
        }
        for l in all {
            self.steps += 1;
            match l {
                L::Schema(i) => {
                    let s = series(made);
                    let d = CString::new(s.dev).unwrap();
                    let m = CString::new(s.sen).unwrap();
                    let p = capi::schema_simple(d.as_ptr(), m.as_ptr(), s.ty.code(), s.enc.code(), s.comp.code());
                    if p.is_null() {
                        return Err("schema_simple gives a null handle".into());
                    }
                    keep.push(d);
                    keep.push(m);
                    slots[i as usize] = Some((made, p));
                    made += 1;
                }
                L::Free(i) => {
                    let (_, p) = slots[i as usize].take().unwrap();
                    capi::schema_free(p);
                }
                L::Writer(i) => {
                    let (k, p) = slots[i as usize].unwrap();
                    let path = format!("{}/{}.tsfile", self.dir, ws.len());
                    let f = CString::new(path.as_str()).unwrap();
                    let w = capi::file_writer_new(f.as_ptr(), p);
                    if w.is_null() {
                        return Err("file_writer_new gives a null handle".into());
                    }
                    ws.push(Open { w: Some(w), k, pts: vec![], path });
                }
                L::Write(j) | L::Many(j) => {
                    let n = if matches!(l, L::Many(_)) { many } else { 1 };
                    for _ in 0..n {
                        let o = &mut ws[j as usize];
                        let s = series(o.k);
                        let i = o.pts.len();
                        let t = crate::c_py::next(o.pts.last().map(|p| p.0), j as usize, i, salt % 2 == 1);
                        let v = crate::c_py::value(i, j as usize);
                        let (d, m) = (self.dev.set(s.dev), self.sen.set(s.sen));
                        let w = capi::file_writer_write_int32(o.w.unwrap(), d, m, t, v);
                        // the caller goes on using its buffers
                        self.dev.trash(b'd');
                        self.sen.trash(if i % 2 == 0 { 0xfe } else { b's' });
                        if w.is_null() {
                            return Err("file_writer_write_int32 gives a null handle".into());
                        }
                        o.w = Some(w);
                        o.pts.push((t, v));
                    }
                }
                L::Close(j) => {
                    let o = &mut ws[j as usize];
                    capi::file_writer_close(o.w.take().unwrap());
                    // complete as soon as close returns
                    let got = std::fs::read(&o.path).map_err(|e| format!("{}: {e}", o.path))?;
                    let (k, pts) = (o.k, o.pts.clone());
                    let want = self.expected(k, &pts)?;
                    if got != *want {
                        let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
                        return Err(format!("writer {j}: file of {} bytes, through the Rust interface {} bytes; they differ from byte {at} on", got.len(), want.len()));
                    }
                }
                L::Null => {
                    capi::schema_free(std::ptr::null_mut());
                    capi::file_writer_close(std::ptr::null_mut());
                }
            }
            let mut h = H::new();
            for s in &slots {
                h.u(s.map_or(99, |x| x.0 as u64));
            }
            for w in &ws {
                h.u(w.k as u64).u(w.pts.len() as u64).u(w.w.is_some() as u64);
            }
            self.states.insert(h.get());
        }
        // closed files stay as they are
        for o in &ws {
            let got = std::fs::read(&o.path).map_err(|e| format!("{}: {e}", o.path))?;
            let (k, pts) = (o.k, o.pts.clone());
            if got != *self.expected(k, &pts)? {
                return Err("a file changed after it was closed".into());
            }
            let _ = std::fs::remove_file(&o.path);
        }
        drop(keep);
        Ok(())
    }
}

/// (depth, points of a "many" letter, salt of the schemas)
fn rounds(thorough: bool) -> Vec<(usize, usize, usize)> {
    let small = cfg!(tsfile_verif_small);
    let m = if small { 9 } else { 40 };
    let mut v = vec![];
    let d = if thorough { 8 } else { 7 };
    for depth in 1..=d {
        v.push((depth, m, depth));
    }
    for salt in 0..6 {
        v.push((5, if small { 30 } else { 3000 }, salt));
    }
    v
}

/// The calls of all legal sequences of this length that create a writer (what is left open is closed
/// and freed at the end), without looking at the files
pub fn bare(depth: usize, f: &mut dyn FnMut(String, &dyn Fn(&str, usize, usize))) {
    walk(depth, &Shape::default(), &mut vec![], &mut |seq| {
        if seq.iter().any(|l| matches!(l, L::Writer(_))) {
            f(format!("{seq:?}"), &|dir, many, salt| calls(seq, dir, many, salt));
        }
    });
}

fn calls(seq: &[L], dir: &str, many: usize, salt: usize) {
    let mut slots = [(0usize, std::ptr::null_mut()); 2];
    let mut ws = vec![];
    let mut made = salt;
    // the strings of schemas stay valid
    let mut keep: Vec<CString> = vec![];
    let close = |w: &mut Option<_>| {
        if let Some(w) = w.take() {
            capi::file_writer_close(w);
        }
    };
    for l in seq {
        match *l {
            L::Schema(i) => {
                let s = series(made);
                let (d, m) = (CString::new(s.dev).unwrap(), CString::new(s.sen).unwrap());
                let p = capi::schema_simple(d.as_ptr(), m.as_ptr(), s.ty.code(), s.enc.code(), s.comp.code());
                keep.push(d);
                keep.push(m);
                slots[i as usize] = (made, p);
                made += 1;
            }
            L::Free(i) => capi::schema_free(std::mem::replace(&mut slots[i as usize].1, std::ptr::null_mut())),
            L::Writer(i) => {
                let (k, p) = slots[i as usize];
                let f = CString::new(format!("{dir}/{}.tsfile", ws.len())).unwrap();
                ws.push((Some(capi::file_writer_new(f.as_ptr(), p)), k, 0i64));
            }
            L::Write(j) | L::Many(j) => {
                let o = &mut ws[j as usize];
                let s = series(o.1);
                let (d, m) = (CString::new(s.dev).unwrap(), CString::new(s.sen).unwrap());
                for _ in 0..if matches!(l, L::Many(_)) { many } else { 1 } {
                    o.0 = Some(capi::file_writer_write_int32(o.0.unwrap(), d.as_ptr(), m.as_ptr(), o.2, (o.2 * 37 % 101) as i32));
                    o.2 += 1;
                }
            }
            L::Close(j) => close(&mut ws[j as usize].0),
            L::Null => {
                capi::schema_free(std::ptr::null_mut());
                capi::file_writer_close(std::ptr::null_mut());
            }
        }
    }
    for w in ws.iter_mut() {
        close(&mut w.0);
    }
    for (_, p) in slots {
        capi::schema_free(p);
    }
}

/// Long programs: a file per configuration and length
fn long(k: usize) -> (Vec<L>, usize, usize) {
    let lens = if cfg!(tsfile_verif_small) { [48, 47, 49, 200, 1000, 5] } else { [20000, 33000, 131072, 70000, 1, 16384] };
    let (cfg, len) = (k % 6, lens[k / 6 % 6]);
    (vec![L::Schema(0), L::Writer(0), L::Writer(0), L::Many(0), L::Write(1), L::Free(0), L::Write(1), L::Write(0), L::Close(1), L::Many(0)], len, cfg)
}

pub fn child(thorough: bool, shard: usize, shards: usize, dir: &str, only: Option<&str>) {
    crate::poison::switch_on();
    let progress = std::fs::File::create(format!("{dir}/progress")).expect("progress");
    let mut run = Run {
        dir: dir.to_string(),
        cache: HashMap::new(),
        states: Default::default(),
        steps: 0,
        dev: Buf(Box::new([0; 256])),
        sen: Buf(Box::new([0; 256])),
    };
    let mut traces = 0usize;
    let mut bad = 0;
    let mut one = |key: String, seq: &[L], many: usize, salt: usize| {
        if only.map_or(false, |o| o != key) || bad > 2 {
            return;
        }
        let mut line = format!("{key} {seq:?}");
        line.truncate(500);
        let line = format!("{line:<500}");
        let _ = progress.write_all_at(line.as_bytes(), 0);
        traces += 1;
        if let Err(e) = run.sequence(seq, many, salt) {
            bad += 1;
            println!("violation {key} {e} -- {seq:?}, first schema {:?}", series(salt));
        }
    };
    for (r, (depth, many, salt)) in rounds(thorough).into_iter().enumerate() {
        let mut n = 0usize;
        walk(depth, &Shape::default(), &mut vec![], &mut |seq| {
            n += 1;
            // sequences without a writer show nothing
            if n % shards != shard || !seq.iter().any(|l| matches!(l, L::Writer(_))) {
                return;
            }
            one(format!("seq/{r}/{n}"), seq, many, salt);
        });
    }
    for k in 0..36 {
        if k % shards == shard {
            let (seq, many, salt) = long(k);
            one(format!("long/{k}"), &seq, many, salt);
        }
    }
    let n = c_names().len();
    for k in 0..n * n {
        if k % shards == shard {
            let seq = [L::Schema(0), L::Writer(0), L::Write(0), L::Write(0), L::Many(0), L::Free(0), L::Write(0), L::Close(0)];
            one(format!("names/{k}"), &seq, 5, NAMED + k);
        }
    }
    println!("done {traces} {} {}", run.states.len(), run.steps);
    for s in &run.states {
        println!("{s}");
    }
}

pub fn c23(ctx: &Ctx) {
    let dir = Scratch::new("c23");
    let v = if ctx.small { "small" } else { "real" };
    let shards = 8;
    let exe = std::env::current_exe().unwrap();
    let only = ctx.only.clone();
    for (d, m, s) in rounds(!ctx.quick()) {
        ctx.note(&format!("{v}: sequences of length {d} ({m} points, first schema {s})"), "all legal ones");
    }
    ctx.note(&format!("{v}: pairs of unusual names"), format!("{}", c_names().len().pow(2)));
    ctx.par(shards, |k| {
        let sub = dir.path(&format!("{k}"));
        std::fs::create_dir_all(&sub).unwrap();
        let mut a = vec!["child".to_string(), "capi".into(), (!ctx.quick() as u8).to_string(), k.to_string(), shards.to_string(), sub.clone()];
        if let Some(o) = &only {
            a.push(o.trim_start_matches(&format!("{v}/")).to_string());
        }
        let o = std::process::Command::new(&exe).args(&a).current_dir(&sub).output();
        let o = match o {
            Ok(o) => o,
            Err(e) => {
                ctx.violation(format!("{v}/harness/{k}"), format!("harness: {e}"));
                return;
            }
        };
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let mut lines = text.lines();
        let mut done = false;
        for l in lines.by_ref() {
            if let Some(r) = l.strip_prefix("violation ") {
                let (key, m) = r.split_once(' ').unwrap_or((r, ""));
                if key == "-" {
                    let p = std::fs::read_to_string(format!("{sub}/progress")).unwrap_or_default();
                    let key = p.split(' ').next().unwrap_or("?").to_string();
                    ctx.violation(format!("{v}/{key}"), format!("{m} -- {}", p.trim()));
                } else {
                    ctx.violation(format!("{v}/{key}"), m.to_string());
                }
            }
            if let Some(r) = l.strip_prefix("done ") {
                let n: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
                ctx.part(&format!("{v}: call sequences"), n[0]);
                ctx.traces.fetch_add(n[0], std::sync::atomic::Ordering::Relaxed);
                ctx.steps(n[2] as usize);
                done = true;
                break;
            }
        }
        for l in lines {
            if let Ok(h) = l.parse() {
                ctx.state(h);
            }
        }
        if !done {
            ctx.traces.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        if !done && !text.contains("violation - ") {
            let p = std::fs::read_to_string(format!("{sub}/progress")).unwrap_or_default();
            let key = p.split(' ').next().unwrap_or("?").to_string();
            ctx.violation(format!("{v}/{key}"), format!("the process ended with {} in this sequence: {}", o.status, p.trim()));
        } else if k == 0 {
            let p = std::fs::read_to_string(format!("{sub}/progress")).unwrap_or_default();
            ctx.sample(|| p.trim().to_string());
        }
        if only.is_some() && done && !text.contains("violation") && !text.contains("done 0 ") {
            println!("REPLAY ok");
        }
    });
}
