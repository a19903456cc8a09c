//! C12, C13, C14, C15, C16: the file underneath.
use crate::c_write::*;
use crate::ctx::{panic_text, Ctx, H};
use crate::drive::*;
use crate::hist::*;
use crate::model::*;
use crate::oracle::*;
use crate::sys::*;
use crate::verify;
use std::fs::{self, File};
use std::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use tsfile_writer::writer::tsfile_writer::TsFileWriter;
use tsfile_writer::writer::WriteWrapper;

pub type FW = TsFileWriter<'static, WriteWrapper<File>>;

pub fn open_file(path: &str, sch: &[Ser]) -> Result<FW, Res> {
    let p = leak(path.to_string());
    match catch_unwind(AssertUnwindSafe(|| TsFileWriter::new(p, build_schema(sch), Default::default()))) {
        Ok(Ok(w)) => Ok(w),
        Ok(Err(e)) => Err(res(Err(e))),
        Err(p) => Err(Res::Panic(panic_text(&*p))),
    }
}

/// Two writers on two files, steps in the given order: creation, operations, close
pub fn two_files(
    paths: &[String],
    sch: &[Vec<Ser>],
    order: &[u8],
    op: impl Fn(usize, usize) -> Option<Op>,
) -> R<()> {
    let mut w: Vec<Option<FW>> = vec![None, None];
    let mut at = [0usize; 2];
    for k in order {
        let k = *k as usize;
        if at[k] == 0 {
            w[k] = Some(open_file(&paths[k], &sch[k]).map_err(|r| format!("creation of {}: {r:?}", paths[k]))?);
        } else if let Some(o) = op(k, at[k]) {
            let r = apply(w[k].as_mut().unwrap(), &o);
            if !r.is_ok() {
                return Err(format!("{}: {r:?}", show_ops(&[o])));
            }
        }
        at[k] += 1;
    }
    Ok(())
}

// ---------------------------------------------------------------- histories

pub struct Hist {
    pub name: String,
    pub sch: Vec<Ser>,
    /// ends with close
    pub ops: Vec<Op>,
    pub model: Model,
}

fn hist(name: &str, sch: &[Ser], alpha: &[A]) -> Hist {
    let mut c = Case::new(sch);
    for a in alpha {
        c.push(a);
    }
    c.push(&A::Close);
    let (ops, model) = (c.ops.clone(), c.model.clone());
    Hist { name: name.into(), sch: sch.to_vec(), ops, model }
}

/// A representative set: empty file, one point, several series, several pages, several flushes,
/// refused writes in between, deeper index
pub fn histories(n: usize) -> Vec<Hist> {
    let mut v = vec![];
    for i in 0..n {
        let sch = mixed(i);
        v.push(hist(&format!("empty{i}"), &sch, &[]));
        v.push(hist(&format!("one{i}"), &sch, &[A::W("d1", "s1", T::Plus(1), V::Auto)]));
        v.push(hist(
            &format!("few{i}"),
            &sch,
            &[
                A::W("d1", "s1", T::Plus(1), V::Auto),
                A::M("d1", T::Plus(5), vec![("s2", V::Auto), ("s1", V::Auto)]),
                A::W("d2", "s1", T::Plus(0), V::Auto),
                A::W("d2", "s1", T::Plus(1), V::Auto),
            ],
        ));
        v.push(hist(
            &format!("flushes{i}"),
            &sch,
            &[
                A::Burst("d1", "s1", 7),
                A::Burst("d2", "s1", 9),
                A::M("d1", T::Plus(1), vec![("s2", V::Auto), ("s1", V::Auto)]),
                A::W("d1", "s1", T::Plus(0), V::Auto),
                A::Burst("d1", "s2", 22),
            ],
        ));
        if i == 0 {
            // index of several levels, for the devices as well as for the sensors of one of them
            let sens = ["s1", "s2", "s3", "s4", "s5"];
            let mut deep: Vec<Ser> = vec![];
            for (k, s) in sens.iter().enumerate() {
                deep.push(Ser { dev: "d3", sen: s, ..sch[k % sch.len()] });
            }
            for (k, d) in ["d1", "d2", "d4", "d5", "d6"].into_iter().enumerate() {
                deep.push(Ser { dev: d, sen: "s1", ..sch[k % sch.len()] });
            }
            deep.sort_by_key(|s| s.dev);
            let mut a: Vec<A> = vec![A::M("d3", T::Plus(1), sens.iter().map(|s| (*s, V::Auto)).collect())];
            for d in ["d6", "d5", "d4", "d2", "d1"] {
                a.push(A::W(d, "s1", T::Plus(2), V::Auto));
            }
            v.push(hist("deep", &deep, &a));
        }
    }
    v
}

fn baseline(h: &Hist) -> R<(Vec<u8>, Vec<usize>, Vec<Res>)> {
    let sink = Sink::new();
    let mut w = open(build_schema(&h.sch), &sink, Some(2)).map_err(|r| format!("creation: {r:?}"))?;
    let mut lens = vec![sink.len()];
    let mut rs = vec![];
    for o in &h.ops {
        rs.push(apply(&mut w, o));
        lens.push(sink.len());
    }
    let b = sink.take();
    verify::round_trip(&b, &h.model)?;
    Ok((b, lens, rs))
}

fn eq(a: &[u8], b: &[u8], what: &str) -> R<()> {
    if a == b {
        return Ok(());
    }
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    Err(format!("{what}: {} bytes, expected {}; first difference at {i}", b.len(), a.len()))
}

fn parts(ctx: &Ctx, name: &str, n: usize) {
    ctx.part(&format!("{}: {name}", if ctx.small { "small" } else { "real" }), n as u64);
}

// ---------------------------------------------------------------- C12

pub fn c12(ctx: &Ctx) {
    let hs = histories(ctx.pick(5, 10));
    let v = if ctx.small { "small" } else { "real" };
    for h in &hs {
        let base = match catch_unwind(AssertUnwindSafe(|| baseline(h))) {
            Ok(Ok(b)) => b,
            e => {
                ctx.violation(format!("{v}/{}/baseline", h.name), format!("{:?}", e.map(|r| r.map(|_| ()))));
                continue;
            }
        };
        let (bytes, _, results) = &base;
        let try_plan = |key: String, plan: Plan| {
            ctx.case(|| key.clone(), || {
                let sink = Sink::with(plan.clone());
                let rs = run(&h.sch, &h.ops, &sink, Some(2));
                ctx.steps(sink.requests());
                ctx.state(H::new().s(&key).get());
                if rs != *results {
                    return Err(format!("results {rs:?}, with complete writes {results:?}; {plan:?} -- {}", show_ops(&h.ops)));
                }
                eq(bytes, &sink.bytes(), "file written in pieces").map_err(|e| format!("{e}; {plan:?} -- {:?} {}", h.sch, show_ops(&h.ops)))
            });
        };
        let n = bytes.len();
        parts(ctx, "a cut at every offset", n);
        ctx.par(n, |c| try_plan(format!("{v}/{}/cut/{c}", h.name), Plan { cuts: vec![c], ..Plan::default() }));
        parts(ctx, "maximum size of a write", 80);
        ctx.par(80, |m| {
            try_plan(format!("{v}/{}/max/{m}", h.name), Plan { max: m + 1, ..Plan::default() });
            try_plan(
                format!("{v}/{}/maxintr/{m}", h.name),
                Plan { max: m + 1, eintr: (0..n).step_by(m + 1).collect(), ..Plan::default() },
            )
        });
        let probe = Sink::new();
        run(&h.sch, &h.ops, &probe, Some(2));
        let reqs = probe.requests();
        parts(ctx, "an interruption at every request", reqs);
        ctx.par(reqs, |k| {
            try_plan(format!("{v}/{}/eintr/{k}", h.name), Plan { eintr: vec![k], ..Plan::default() });
            try_plan(format!("{v}/{}/eintr2/{k}", h.name), Plan { eintr: (k..reqs).collect(), ..Plan::default() });
        });
        // pairs of cuts
        let step = if n <= ctx.pick(220, 900) { 1 } else { ctx.pick(n / 60, n / 300).max(1) };
        let m = n / step;
        parts(ctx, "pairs of cuts", m * m / 2);
        ctx.par(m * m, |q| {
            let (a, b) = (q % m * step, q / m * step);
            if a < b {
                try_plan(format!("{v}/{}/cuts/{a}/{b}", h.name), Plan { cuts: vec![a, b], ..Plan::default() });
            }
        });
    }
    // real files: the count of every write call cut down, or the call interrupted
    let dir = Scratch::new("c12");
    let total = AtomicUsize::new(0);
    let hs = if ctx.quick() { histories(2) } else { histories(6) };
    ctx.par(hs.len(), |hi| {
        let h = &hs[hi];
        let sub = dir.path(&format!("{hi}"));
        let _ = fs::create_dir_all(&sub);
        let sub = std::path::Path::new(&sub);
        let args = ["child", "file", &hi.to_string(), "x.tsfile"].map(|s| s.to_string());
        let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let Ok((bytes, _, results)) = file_baseline(h) else { return };
        let mut writes = vec![];
        let r = trace(&args, sub, |_| Act::Go, |c| {
            if c.is_write() {
                writes.push((c.k, c.args[2]));
            }
            false
        });
        ctx.case(|| format!("{v}/trace/{hi}/plain"), || check_child(&r, sub, &bytes, &results));
        for (k, n) in writes {
            for mode in 0..3 {
                if mode < 2 && n < 2 {
                    continue;
                }
                total.fetch_add(1, Relaxed);
                ctx.case(|| format!("{v}/trace/{hi}/{k}/{mode}"), || {
                    let r = trace(
                        &args,
                        sub,
                        |c| {
                            if c.is_write() && c.k == k {
                                match mode {
                                    0 => Act::Count(1),
                                    1 => Act::Count(n - 1),
                                    _ => Act::Fail(libc::EINTR),
                                }
                            } else {
                                Act::Go
                            }
                        },
                        |_| false,
                    );
                    ctx.steps(1);
                    ctx.state(H::new().u(hi as u64).u(k as u64).u(mode).get());
                    check_child(&r, sub, &bytes, &results)
                        .map_err(|e| format!("{e} -- system call {k} cut short or interrupted ({mode}), history {}", h.name))
                });
            }
        }
    });
    parts(ctx, "cut or interrupted system calls on real files", total.load(Relaxed));
}

fn file_baseline(h: &Hist) -> R<(Vec<u8>, Vec<usize>, Vec<Res>)> {
    let sink = Sink::new();
    let mut w = open(build_schema(&h.sch), &sink, None).map_err(|r| format!("creation: {r:?}"))?;
    let mut lens = vec![sink.len()];
    let mut rs = vec![];
    for o in &h.ops {
        rs.push(apply(&mut w, o));
        lens.push(sink.len());
    }
    Ok((sink.take(), lens, rs))
}

fn show_res(rs: &[Res]) -> String {
    rs.iter().map(|r| r.short()).collect::<Vec<_>>().join(",")
}

fn check_child(r: &R<Exit>, dir: &std::path::Path, bytes: &[u8], results: &[Res]) -> R<()> {
    let r = r.as_ref().map_err(|e| e.clone())?;
    if r.code != Some(0) {
        return Err(format!("writer process ended with {:?} {:?}: {}", r.code, r.signal, r.stdout));
    }
    let want = format!("created,{}", show_res(results));
    if r.stdout.trim() != want {
        return Err(format!("results {}, with complete writes {want}", r.stdout.trim()));
    }
    let b = fs::read(dir.join("x.tsfile")).map_err(|e| format!("file: {e}"))?;
    eq(bytes, &b, "file on disk")
}

/// Child: writes history `i` of `histories(10)` to `path`; prints the results. Lines end at the
/// end only, so that the output is one write after the end marker.
pub fn child_file(i: usize, path: &str) {
    let hs = histories(10);
    let h = &hs[i];
    mark(BEGIN);
    let r = open_file(path, &h.sch);
    let mut out = vec![];
    match r {
        Err(r) => out.push(r.short()),
        Ok(mut w) => {
            out.push("created");
            for o in &h.ops {
                out.push(apply(&mut w, o).short());
            }
            // a second attempt
            if out.last() != Some(&"ok") {
                out.push("again");
                out.push(apply(&mut w, &Op::Close).short());
            }
            mark(END);
            std::mem::forget(w);
        }
    }
    mark(END);
    println!("{}", out.join(","));
}

// ---------------------------------------------------------------- C13

const ERRS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::StorageFull,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
];

fn fail_case(h: &Hist, plan: Plan, base: &(Vec<u8>, Vec<usize>, Vec<Res>)) -> R<&'static str> {
    let sink = Sink::with(plan.clone());
    let w = open(build_schema(&h.sch), &sink, Some(2));
    let mut w = match w {
        Ok(w) => {
            if sink.failures() > 0 {
                return Err("creation succeeded although a write to the file failed".into());
            }
            w
        }
        Err(r) => {
            if r.is_panic() {
                return Err(format!("creation: {r:?}"));
            }
            if sink.failures() == 0 {
                return Err(format!("creation refused without a failure: {r:?}"));
            }
            return Ok("creation failed");
        }
    };
    let mut failed = false;
    let mut ops = h.ops.clone();
    // more writes and closes after the history
    ops.push(Op::Close);
    ops.push(Op::W(h.sch[0].dev, h.sch[0].sen, i64::MAX - 1, Val::small(h.sch[0].ty, 1)));
    ops.push(Op::Close);
    let mut what = "no failure";
    for (i, o) in ops.iter().enumerate() {
        let before = sink.failures();
        let r = apply(&mut w, o);
        if r.is_panic() {
            return Err(format!("operation {i} ({}): {r:?}", show_ops(&ops[i..=i])));
        }
        if sink.failures() > before {
            if r.is_ok() {
                return Err(format!("operation {i} ({}) reports success although a write failed", show_ops(&ops[i..=i])));
            }
            failed = true;
            what = if *o == Op::Close { "close failed" } else { "write failed" };
        } else if failed {
            if *o == Op::Close && r.is_ok() {
                return Err(format!("operation {i} (close) reports success after an earlier write to the file failed"));
            }
        } else if i < h.ops.len() {
            if r != base.2[i] {
                return Err(format!("operation {i}: {r:?} without a failure, expected {:?}", base.2[i]));
            }
            if *o == Op::Close {
                eq(&base.0, &sink.bytes(), "file after a successful close")?;
            }
        }
    }
    drop(w);
    let b = sink.take();
    if !base.0.starts_with(&b) {
        return Err(format!("{} bytes in the file, which are no prefix of the finished file", b.len()));
    }
    Ok(what)
}

pub fn c13(ctx: &Ctx) {
    let v = if ctx.small { "small" } else { "real" };
    for h in &histories(ctx.pick(5, 10)) {
        let base = match catch_unwind(AssertUnwindSafe(|| baseline(h))) {
            Ok(Ok(b)) => b,
            e => {
                ctx.violation(format!("{v}/{}/baseline", h.name), format!("{:?}", e.map(|r| r.map(|_| ()))));
                continue;
            }
        };
        let go = |key: String, plan: Plan| {
            ctx.case(|| key.clone(), || {
                ctx.steps(h.ops.len());
                ctx.state(H::new().s(&key).get());
                let o = fail_case(h, plan.clone(), &base).map_err(|e| format!("{e}; {plan:?} -- {:?} {}", h.sch, show_ops(&h.ops)))?;
                ctx.outcome(o);
                Ok(())
            });
        };
        let n = base.0.len();
        for permanent in [false, true] {
            let probe = Sink::new();
            run(&h.sch, &h.ops, &probe, Some(2));
            let reqs = probe.requests() + 1;
            parts(ctx, "failure of every write request", reqs * (ERRS.len() + 1));
            ctx.par(reqs * (ERRS.len() + 1), |q| {
                let (k, e) = (q % reqs, q / reqs);
                go(
                    format!("{v}/{}/fail/{permanent}/{q}", h.name),
                    Plan { fail_at: Some(k), permanent, kind: ERRS.get(e).copied(), zero: e == ERRS.len(), ..Plan::default() },
                );
            });
            // requests to flush the sink fail: what it holds back is lost
            let n = probe.flushes() + 1;
            parts(ctx, "failure of every flush request", n * ERRS.len());
            ctx.par(n * ERRS.len(), |q| {
                go(
                    format!("{v}/{}/flush/{permanent}/{q}", h.name),
                    Plan { flush_at: Some(q % n), permanent, kind: ERRS.get(q / n).copied(), ..Plan::default() },
                );
            });
        }
        parts(ctx, "medium full at every offset", n + 1);
        ctx.par(n + 2, |k| {
            go(format!("{v}/{}/full/{k}", h.name), Plan { full_at: Some(k), ..Plan::default() });
            go(format!("{v}/{}/fullmax/{k}", h.name), Plan { full_at: Some(k), max: 3, ..Plan::default() });
        });
        // the rest of a request that was taken in part fails
        parts(ctx, "failure of the rest of a write, at every offset", n * 2 * 3);
        ctx.par(n, |k| {
            for permanent in [false, true] {
                for (e, max) in [(0, 0), (4, 0), (1, 3)] {
                    go(
                        format!("{v}/{}/rest/{k}/{permanent}/{e}", h.name),
                        Plan { break_at: Some(k), permanent, kind: Some(ERRS[e]), max, ..Plan::default() },
                    );
                }
            }
        });
        if !ctx.quick() {
            // a failing request after short ones
            let max = 5;
            let m = n / max + 8;
            ctx.par(m * max, |q| {
                let (k, mx) = (q % m, q / m + 1);
                go(format!("{v}/{}/shortfail/{q}", h.name), Plan { fail_at: Some(k), max: mx, ..Plan::default() });
            });
        }
    }
    // real files: every write system call of every history fails, with and without recovery
    let dir = Scratch::new("c13");
    let hs = histories(ctx.pick(2, 8));
    let total = AtomicUsize::new(0);
    ctx.par(hs.len(), |hi| {
        let h = &hs[hi];
        let sub = dir.path(&format!("{hi}"));
        let _ = fs::create_dir_all(&sub);
        let sub = std::path::Path::new(&sub);
        let args = ["child", "file", &hi.to_string(), "x.tsfile"].map(|s| s.to_string());
        let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let Ok((bytes, _, results)) = file_baseline(h) else { return };
        let mut writes = vec![];
        let r = trace(&args, sub, |_| Act::Go, |c| {
            if c.is_write() {
                writes.push(c.k);
            }
            false
        });
        ctx.case(|| format!("{v}/trace/{hi}/plain"), || check_child(&r, sub, &bytes, &results));
        for k in writes {
            for (m, (errno, permanent)) in
                [(libc::ENOSPC, true), (libc::EIO, false), (libc::EDQUOT, false), (0, false), (libc::EIO, true), (libc::ENOSPC, false)]
                    .into_iter()
                    .enumerate()
            {
                total.fetch_add(1, Relaxed);
                ctx.case(|| format!("{v}/trace/{hi}/{k}/{m}"), || {
                    let (mut fails, mut first) = (0, k);
                    let r = trace(
                        &args,
                        sub,
                        |c| {
                            // the last two: taken in part, the rest fails
                            if m >= 4 && c.is_write() && c.k == k && c.args[2] > 1 {
                                first = k + 1;
                                return Act::Count(1 + (c.args[2] - 2) * (m as u64 - 4));
                            }
                            if c.is_write() && c.k >= first && (fails == 0 || permanent) {
                                fails += 1;
                                if errno == 0 {
                                    Act::Return(0)
                                } else {
                                    Act::Fail(errno)
                                }
                            } else {
                                Act::Go
                            }
                        },
                        |_| false,
                    )?;
                    ctx.steps(1);
                    ctx.state(H::new().u(hi as u64).u(k as u64).u(m as u64).u(13).get());
                    if r.code != Some(0) {
                        return Err(format!("writer process ended with {:?} {:?}: {}", r.code, r.signal, r.stdout));
                    }
                    let got: Vec<&str> = r.stdout.trim().split(',').collect();
                    if got.contains(&"panic") {
                        return Err(format!("panic; results {}", r.stdout));
                    }
                    if fails == 0 {
                        ctx.outcome("call not reached");
                        return Ok(());
                    }
                    if got[0] != "created" {
                        return Ok(());
                    }
                    let closes: Vec<&&str> = got[h.ops.len()..].iter().collect();
                    if closes.iter().any(|c| **c == "ok") {
                        return Err(format!("close reports success although a write failed; results {}", r.stdout));
                    }
                    let b = fs::read(sub.join("x.tsfile")).map_err(|e| format!("file: {e}"))?;
                    if !bytes.starts_with(&b) {
                        return Err("bytes on disk are no prefix of the finished file".into());
                    }
                    Ok(())
                });
            }
        }
    });
    parts(ctx, "failing write system calls on real files", total.load(Relaxed));
    // /dev/full takes nothing
    ctx.case(|| format!("{v}/devfull"), || {
        if !std::path::Path::new("/dev/full").exists() {
            return Ok(());
        }
        match open_file("/dev/full", &mixed(0)) {
            Err(r) if r.is_panic() => Err(format!("creation on /dev/full: {r:?}")),
            Err(_) => Ok(()),
            Ok(mut w) => {
                let r = apply(&mut w, &Op::Close);
                if r.is_ok() {
                    return Err("a file on /dev/full was closed successfully".into());
                }
                if r.is_panic() {
                    return Err(format!("close on /dev/full: {r:?}"));
                }
                Ok(())
            }
        }
    });
    // a limit on the file size, at every byte
    let hs = histories(10);
    ctx.par(hs.len().min(ctx.pick(8, 40)), |hi| {
        ctx.case(|| format!("{v}/rlimit/{hi}"), || {
            let sub = dir.path(&format!("r{hi}"));
            let _ = fs::create_dir_all(&sub);
            let o = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["child", "rlimit", &hi.to_string(), "x.tsfile"])
                .current_dir(&sub)
                .output()
                .map_err(|e| format!("harness: {e}"))?;
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            match t.trim().strip_prefix("ok ") {
                Some(n) => {
                    ctx.steps(n.parse().unwrap_or(0));
                    Ok(())
                }
                None => Err(format!("under a file size limit: {t} {:?}", o.status)),
            }
        });
    });
    parts(ctx, "file size limit at every byte, histories", hs.len());
}

/// Child: for every limit on the file size, writes the history; no success below the full length.
pub fn child_rlimit(i: usize, path: &str) {
    let hs = histories(10);
    let h = &hs[i];
    let Ok((bytes, _, results)) = file_baseline(h) else {
        println!("baseline");
        return;
    };
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    for n in 0..=bytes.len() {
        let l = libc::rlimit { rlim_cur: n as u64, rlim_max: libc::RLIM_INFINITY };
        unsafe {
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        }
        let mut rs = vec![];
        let mut panic = None;
        let created = match open_file(path, &h.sch) {
            Err(r) => {
                if r.is_panic() {
                    panic = Some(r);
                }
                false
            }
            Ok(mut w) => {
                for o in &h.ops {
                    let r = apply(&mut w, o);
                    if r.is_panic() {
                        panic = Some(r.clone());
                    }
                    rs.push(r);
                }
                if panic.is_none() && !rs.last().unwrap().is_ok() {
                    rs.push(apply(&mut w, &Op::Close));
                }
                true
            }
        };
        let l = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
        unsafe {
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        }
        if let Some(p) = panic {
            println!("limit {n}: {p:?}");
            return;
        }
        let disk = fs::read(path).unwrap_or_default();
        if n < bytes.len() {
            if created && rs[h.ops.len() - 1..].iter().any(|r| r.is_ok()) {
                println!("limit {n} of {} bytes: close reports success ({})", bytes.len(), show_res(&rs));
                return;
            }
            if !bytes.starts_with(&disk) {
                println!("limit {n}: the file is no prefix");
                return;
            }
        } else if rs != results || disk != bytes {
            println!("limit {n}, enough: results {}", show_res(&rs));
            return;
        }
    }
    println!("ok {}", bytes.len() + 1);
}

// ---------------------------------------------------------------- C14

/// Would a careful reader take these bytes for a finished file?
fn passes(b: &[u8]) -> bool {
    let Ok(f) = footer(b) else { return false };
    let Ok(d) = scan(b) else { return false };
    d.separator && d.end == f.meta_offset && oracle_walk(b, &f)
}
fn oracle_walk(b: &[u8], f: &Footer) -> bool {
    crate::oracle::walk(b, f, usize::MAX).is_ok()
}

fn prefix_ok(p: &[u8], full: &[u8], d: &Data, naive: bool) -> R<()> {
    if !full.starts_with(p) {
        return Err(format!("{} bytes in the file, no prefix of the finished one", p.len()));
    }
    if p.len() < full.len() {
        if catch_unwind(|| passes(p)).unwrap_or(true) {
            return Err(format!("the first {} of {} bytes pass for a finished file", p.len(), full.len()));
        }
        if naive && p.len() >= 13 && p.ends_with(MAGIC) {
            return Err(format!("the first {} of {} bytes end like a finished file", p.len(), full.len()));
        }
    }
    if p.len() < 7 {
        return Ok(());
    }
    let got = scan(p).map_err(|e| format!("scan of the first {} bytes: {e}", p.len()))?;
    let mut g = got.chunks();
    for (dev, c) in d.chunks() {
        if c.end > p.len() {
            break;
        }
        match g.next() {
            Some((e, x)) if e == dev && x.offset == c.offset && x.pts() == c.pts() => {}
            x => {
                return Err(format!(
                    "scan of the first {} bytes gives {:?} instead of the chunk of {dev:?} {:?} at {}",
                    p.len(),
                    x.map(|x| (x.0.to_string(), x.1.offset)),
                    c.sensor,
                    c.offset
                ))
            }
        }
    }
    if let Some((e, x)) = g.next() {
        return Err(format!("scan of the first {} bytes invents a chunk of {e:?} at {}", p.len(), x.offset));
    }
    Ok(())
}

pub fn c14(ctx: &Ctx) {
    let v = if ctx.small { "small" } else { "real" };
    // every cut of every file; the content at every operation boundary
    let each = |c: &Case, key: u64| -> R<()> {
        let sink = Sink::new();
        let mut w = open(build_schema(c.sch), &sink, Some(2)).map_err(|r| format!("{r:?}"))?;
        let mut stages = vec![sink.bytes()];
        let mut so_far = Model::new(c.sch);
        for o in c.ops.iter().chain([Op::Close].iter()) {
            let r = apply(&mut w, o);
            if r.is_panic() {
                return Err(format!("{r:?}"));
            }
            so_far.step(o);
            let now = sink.bytes();
            if *o != Op::Close && now.len() > stages[stages.len() - 1].len() {
                // a flush: all that was buffered is in the file when the call returns
                let e = format!("after operation {}, which flushed", stages.len());
                let d = scan(&now).map_err(|x| format!("{e}: {x}"))?;
                verify::data_matches(&d, &so_far).map_err(|x| format!("{e}: {x}"))?;
                if d.end != now.len() {
                    return Err(format!("{e}: the file ends within a chunk group"));
                }
            }
            stages.push(now);
        }
        let full = sink.take();
        let d = scan(&full)?;
        verify::data_matches(&d, &c.model)?;
        for (i, s) in stages.iter().enumerate() {
            if !full.starts_with(s) {
                return Err(format!("after {i} operations the file is not a prefix of the finished one"));
            }
            if i > 0 && s.len() < stages[i - 1].len() {
                return Err(format!("operation {i} shortened the file"));
            }
        }
        for n in 0..full.len() {
            prefix_ok(&full[..n], &full, &d, true)?;
        }
        ctx.steps(full.len());
        ctx.state(key);
        Ok(())
    };
    for i in 0..ctx.pick(4, 10) {
        let sch = mixed(i);
        let alpha = [
            A::W("d1", "s1", T::Plus(1), V::Auto),
            A::Burst("d1", "s2", 5),
            A::Burst("d2", "s1", 12),
            A::M("d1", T::Plus(1), vec![("s2", V::Auto), ("s1", V::Auto)]),
            A::W("d1", "s1", T::Plus(0), V::Auto),
        ];
        let depth = if ctx.small { ctx.pick(3, 5) } else { ctx.pick(3, 4) };
        all(ctx, &format!("{v}/cut{i}"), &sch, &alpha, depth, |c| each(c, c.model.fingerprint() ^ c.ops.len() as u64));
    }
    // values and names that look like markers, separators and magic
    let evil: Vec<Val> = vec![
        Val::L(i64::from_be_bytes(*b"TsFile\x03\x02")),
        Val::L(0x0202020202020202),
        Val::L(0x0001050200010502),
        Val::L(i64::from_be_bytes(*b"\0\0TsFile")),
    ];
    let sch = [
        ser("TsFile", "TsFile", Ty::I64, Enc::Plain, Comp::Raw),
        ser("\u{2}\u{1}\u{5}", "\u{2}\u{0}\u{1}", Ty::I64, Enc::Plain, Comp::Raw),
    ];
    let mut alpha: Vec<A> = vec![];
    for s in &sch {
        for e in &evil {
            alpha.push(A::W(s.dev, s.sen, T::Plus(1), V::Is(*e)));
        }
    }
    all(ctx, &format!("{v}/evil"), &sch, &alpha, ctx.pick(3, 4), |c| {
        let sink = Sink::new();
        let full = conform(c, &sink, None)?;
        let d = scan(&full)?;
        verify::data_matches(&d, &c.model)?;
        for n in 0..full.len() {
            prefix_ok(&full[..n], &full, &d, false)?;
        }
        ctx.steps(full.len());
        Ok(())
    });
    if !ctx.small {
        big_flush_at(
            ctx,
            |b, m| {
                let d = scan(b)?;
                verify::data_matches(&d, m).map_err(|e| format!("right after a flush: {e}"))
            },
            |_, _| Ok(()),
        );
    }
    // real file: at every system call of the writer the file on disk is a prefix, only ever grows,
    // and holds at least what the same history on a sink has flushed at that operation
    let hs = histories(ctx.pick(4, 10));
    let dir = Scratch::new("c14");
    let points = AtomicUsize::new(0);
    ctx.par(hs.len(), |hi| {
        let h = &hs[hi];
        ctx.case(|| format!("{v}/trace/{}", h.name), || {
            let sub = dir.path(&format!("{hi}"));
            let _ = fs::create_dir_all(&sub);
            let sub = std::path::Path::new(&sub);
            let (full, _, results) = file_baseline(h)?;
            let d = scan(&full)?;
            let path = sub.join("x.tsfile");
            let mut bad: Option<String> = None;
            let mut last: Vec<u8> = vec![];
            let args = ["child", "file", &hi.to_string(), "x.tsfile"].map(|s| s.to_string());
            let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            let r = trace(&args, sub, |_| Act::Go, |c| {
                let now = fs::read(&path).unwrap_or_default();
                points.fetch_add(1, Relaxed);
                let e = if !now.starts_with(&last) {
                    Err(format!("the file shrank or changed ({} to {} bytes)", last.len(), now.len()))
                } else {
                    prefix_ok(&now, &full, &d, true)
                };
                if let Err(e) = e {
                    bad.get_or_insert(format!("crash after system call {} (number {}): {e}", c.k, c.nr));
                }
                last = now;
                false
            });
            ctx.state(H::new().u(hi as u64).u(14).get());
            if let Some(e) = bad {
                return Err(format!("{e} -- {}", show_ops(&h.ops)));
            }
            check_child(&r, sub, &full, &results)
        });
        // what completed calls have flushed survives
        ctx.case(|| format!("{v}/boundary/{}", h.name), || {
            let path = dir.path(&format!("b{hi}.tsfile"));
            let (full, lens, _) = file_baseline(h)?;
            let d = scan(&full)?;
            let mut w = open_file(&path, &h.sch).map_err(|r| format!("creation: {r:?}"))?;
            for (i, o) in h.ops.iter().enumerate() {
                apply(&mut w, o);
                let disk = fs::read(&path).map_err(|e| e.to_string())?;
                prefix_ok(&disk, &full, &d, true)?;
                let must = d.chunks().filter(|c| c.1.end <= lens[i + 1]).map(|c| c.1.end).max().unwrap_or(0);
                if disk.len() < must {
                    return Err(format!(
                        "after operation {i} ({}) {} bytes are in the file, {must} had been flushed",
                        show_ops(&h.ops[i..=i]),
                        disk.len()
                    ));
                }
            }
            ctx.steps(h.ops.len());
            // the writer is still alive: the file is complete all the same
            let disk = fs::read(&path).map_err(|e| e.to_string())?;
            eq(&full, &disk, "file after close, before the writer is dropped")?;
            drop(w);
            Ok(())
        });
    });
    parts(ctx, "crash points between system calls", points.load(Relaxed));
}

// ---------------------------------------------------------------- C15

/// Directory tree as a set of descriptions
fn tree(d: &std::path::Path) -> Vec<String> {
    let mut out = vec![];
    fn go(base: &std::path::Path, d: &std::path::Path, out: &mut Vec<String>) {
        let Ok(rd) = fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
            let Ok(m) = fs::symlink_metadata(&p) else { continue };
            if m.is_dir() {
                out.push(format!("{rel}/"));
                go(base, &p, out);
            } else if m.is_symlink() {
                out.push(format!("{rel}@"));
            } else {
                out.push(rel);
            }
        }
    }
    go(d, d, &mut out);
    out.sort();
    out
}

struct PathCase {
    name: String,
    /// path relative to the working directory of the case, or absolute with {} for it
    path: String,
    /// what is prepared: (kind, path)
    prep: Vec<(char, String)>,
    ok: Option<bool>,
    /// file that holds the result, if not `path` itself
    result: Option<String>,
}

fn path_cases(thorough: bool) -> Vec<PathCase> {
    let mut v: Vec<PathCase> = vec![];
    let mut add = |name: String, path: String, prep: Vec<(char, String)>, ok: Option<bool>, result: Option<String>| {
        v.push(PathCase { name, path, prep, ok, result })
    };
    let s = |x: &str| x.to_string();
    // missing and existing parents, relative and absolute
    for depth in 0..6usize {
        for existing in 0..=depth {
            for abs in [false, true] {
                let dirs: Vec<String> = (0..depth).map(|i| format!("p{i}")).collect();
                let mut prep = vec![];
                for i in 1..=existing {
                    prep.push(('d', dirs[..i].join("/")));
                }
                let mut p = dirs.join("/");
                if depth > 0 {
                    p.push('/');
                }
                p.push_str("f.tsfile");
                let path = if abs { format!("{{}}/{p}") } else { p.clone() };
                add(format!("parents/{depth}/{existing}/{abs}"), path, prep, Some(true), Some(p));
            }
        }
    }
    // earlier content of every size around that of the new file, at several places
    for n in [0usize, 1, 6, 7, 13, 50, 100, 150, 200, 300, 1000, 70_000] {
        for p in ["f.tsfile", "a/f.tsfile"] {
            let mut prep = vec![];
            if p.starts_with("a/") {
                prep.push(('d', s("a")));
            }
            prep.push((char::from_digit(1, 10).unwrap(), format!("{p}\n{n}")));
            add(format!("existing/{n}/{p}"), s(p), prep, Some(true), None);
        }
    }
    // unusual spellings of good paths
    for p in ["./f", "a/../f", "a//f", "./a/./f", "a/b/../f", " f ", "a b/c d", "ü/é", "-f", "~", "a.b.c", "f.tsfile.tmp", "*?", "a\\b", "\n"] {
        let prep = if p.contains("..") { vec![('d', s("a/b"))] } else { vec![] };
        add(format!("spelling/{p:?}"), s(p), prep, Some(true), None);
    }
    for n in [254usize, 255] {
        add(format!("long/{n}"), "x".repeat(n), vec![], Some(true), None);
    }
    // symbolic links: to a file, dangling, to a directory as parent
    add(s("link/file"), s("l"), vec![('1', s("t\n500")), ('l', s("l\nt"))], Some(true), Some(s("t")));
    add(s("link/dangling"), s("l"), vec![('l', s("l\nt"))], Some(true), Some(s("t")));
    add(s("link/parent"), s("l/f"), vec![('d', s("t")), ('l', s("l\nt"))], Some(true), Some(s("t/f")));
    // impossible ones
    add(s("bad/empty"), s(""), vec![], Some(false), None);
    add(s("bad/root"), s("/"), vec![], Some(false), None);
    add(s("bad/dir"), s("a"), vec![('d', s("a"))], Some(false), None);
    add(s("bad/dir2"), s("a/b"), vec![('d', s("a/b"))], Some(false), None);
    add(s("bad/dot"), s("."), vec![], Some(false), None);
    add(s("bad/dotdot"), s("a/.."), vec![('d', s("a"))], Some(false), None);
    add(s("bad/slash"), s("a/"), vec![], Some(false), None);
    add(s("bad/dirslash"), s("a/"), vec![('d', s("a"))], Some(false), None);
    add(s("bad/parentfile"), s("a/f"), vec![('1', s("a\n10"))], Some(false), None);
    add(s("bad/grandparentfile"), s("a/b/f"), vec![('1', s("a\n10"))], Some(false), None);
    add(s("bad/deepparentfile"), s("a/b/c/f"), vec![('d', s("a")), ('1', s("a/b\n10"))], Some(false), None);
    add(s("bad/linkloop"), s("l/f"), vec![('l', s("l\nl"))], Some(false), None);
    add(s("bad/linkself"), s("l"), vec![('l', s("l\nl"))], Some(false), None);
    add(s("bad/linkdir"), s("l"), vec![('d', s("t")), ('l', s("l\nt"))], Some(false), None);
    add(s("bad/danglingparent"), s("l/f"), vec![('l', s("l\nnone/none"))], Some(false), None);
    add(s("bad/nul"), s("a\0b"), vec![], Some(false), None);
    add(s("bad/nulparent"), s("a\0b/f"), vec![], Some(false), None);
    for n in [256usize, 300, 5000] {
        add(format!("bad/long/{n}"), "x".repeat(n), vec![], Some(false), None);
        add(format!("bad/longparent/{n}"), format!("{}/f", "x".repeat(n)), vec![], Some(false), None);
    }
    add(s("bad/fifo-dir"), s("q/f"), vec![('p', s("q"))], Some(false), None);
    if thorough {
        for n in 1..=260usize {
            add(format!("long/all/{n}"), "y".repeat(n), vec![], Some(n <= 255), None);
        }
        for n in (0..600).step_by(7) {
            add(format!("existing/all/{n}"), s("f"), vec![('1', format!("f\n{n}"))], Some(true), None);
        }
    }
    v
}

fn prepare(base: &str, prep: &[(char, String)]) {
    for (k, p) in prep {
        let mut it = p.split('\n');
        let a = format!("{base}/{}", it.next().unwrap());
        match k {
            'd' => {
                let _ = fs::create_dir_all(&a);
            }
            '1' => {
                let n: usize = it.next().unwrap().parse().unwrap();
                let _ = fs::write(&a, vec![0xa5u8; n]);
            }
            'l' => {
                let _ = std::os::unix::fs::symlink(it.next().unwrap(), &a);
            }
            'p' => unsafe {
                let c = cstr(&a);
                libc::mkfifo(c.as_ptr(), 0o600);
            },
            _ => {}
        }
    }
}

/// Child (in its own working directory): opens, checks, writes, checks, closes, checks.
pub fn child_path(case: usize, thorough: bool) -> R<()> {
    let cs = path_cases(thorough);
    let c = &cs[case];
    let base = std::env::current_dir().map_err(|e| e.to_string())?.to_str().unwrap().to_string();
    prepare(&base, &c.prep);
    let path = c.path.replace("{}", &base);
    let result = c.result.clone().unwrap_or(path.clone());
    let sch = mixed(case % 10);
    let before = tree(std::path::Path::new("."));
    let existing = fs::read(&result).ok();
    let r = open_file(&path, &sch);
    match (r, c.ok) {
        (Err(r), _) if r.is_panic() => Err(format!("creation: {r:?}")),
        (Err(r), Some(true)) => Err(format!("creation refused: {r:?}")),
        (Err(_), _) => {
            let now = tree(std::path::Path::new("."));
            // directories may have been created on the way; nothing may be lost
            if before.iter().any(|x| !now.contains(x)) {
                return Err(format!("failed creation removed files: {before:?} -> {now:?}"));
            }
            if fs::read(&result).ok() != existing {
                return Err("failed creation changed the file there".into());
            }
            Ok(())
        }
        (Ok(_), Some(false)) => Err("creation reports success".into()),
        (Ok(mut w), _) => {
            let after = fs::read(&result).map_err(|e| format!("after creation there is no file: {e}"))?;
            let mut ops: Vec<Op> = vec![];
            let mut cs = Case::new(&sch);
            if case % 3 > 0 {
                cs.push(&A::Burst("d1", "s1", 3));
                cs.push(&A::Burst("d2", "s1", (case % 3 - 1) * 20));
            }
            ops.extend(cs.ops.iter().cloned());
            let full = file_of(&sch, &ops)?;
            if !full.starts_with(&after) {
                return Err(format!("after creation the file holds {} bytes of something else", after.len()));
            }
            for o in &ops {
                let r = apply(&mut w, o);
                if !r.is_ok() {
                    return Err(format!("{o:?}: {r:?}"));
                }
            }
            let r = apply(&mut w, &Op::Close);
            if !r.is_ok() {
                return Err(format!("close: {r:?}"));
            }
            let disk = fs::read(&result).map_err(|e| format!("after close there is no file: {e}"))?;
            eq(&full, &disk, "file when close returned")?;
            drop(w);
            let disk = fs::read(&result).map_err(|e| format!("after drop there is no file: {e}"))?;
            eq(&full, &disk, "file after the writer was dropped")?;
            // nothing else came or went, except parents of the file
            let now = tree(std::path::Path::new("."));
            let rel = result.strip_prefix(&format!("{base}/")).unwrap_or(&result).to_string();
            for x in &now {
                let ok = before.contains(x) || *x == rel || x.ends_with('/') || same_file(x, &rel);
                if !ok {
                    return Err(format!("creation and close left {x:?} behind"));
                }
            }
            if let Some(x) = before.iter().find(|x| !now.contains(x)) {
                return Err(format!("{x:?} disappeared"));
            }
            Ok(())
        }
    }
}

fn same_file(a: &str, b: &str) -> bool {
    match (fs::canonicalize(a), fs::canonicalize(b)) {
        (Ok(x), Ok(y)) => x == y,
        _ => false,
    }
}

pub fn c15(ctx: &Ctx) {
    let v = if ctx.small { "small" } else { "real" };
    let thorough = !ctx.quick();
    let cs = path_cases(thorough);
    let dir = Scratch::new("c15");
    parts(ctx, "paths", cs.len());
    let exe = std::env::current_exe().unwrap();
    ctx.par(cs.len(), |i| {
        ctx.case(|| format!("{v}/{}", cs[i].name.replace('\n', "\\n")), || {
            let sub = dir.path(&format!("{i}"));
            let _ = fs::create_dir_all(&sub);
            let o = std::process::Command::new(&exe)
                .args(["child", "path", &i.to_string(), if thorough { "1" } else { "0" }])
                .current_dir(&sub)
                .output()
                .map_err(|e| format!("harness: {e}"))?;
            ctx.steps(3);
            ctx.state(H::new().s(&cs[i].name).get());
            ctx.outcome(if cs[i].ok == Some(true) { "created" } else { "refused" });
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            let _ = fs::remove_dir_all(&sub);
            if t.trim() == "ok" {
                Ok(())
            } else {
                Err(format!("path {:?}: {} {}", cs[i].path.chars().take(80).collect::<String>(), t.trim(), o.status))
            }
        });
    });
    // permissions, as an unprivileged user
    let perms: Vec<(u32, u32, bool)> = {
        let mut p = vec![];
        for dm in [0o000u32, 0o100, 0o200, 0o300, 0o400, 0o500, 0o600, 0o700] {
            for fm in [0o000u32, 0o200, 0o400, 0o600, 0o1000] {
                for sub in [false, true] {
                    p.push((dm, fm, sub));
                }
            }
        }
        p
    };
    parts(ctx, "permissions of directory and file", perms.len());
    ctx.par(perms.len(), |i| {
        let (dm, fm, nested) = perms[i];
        ctx.case(|| format!("{v}/permissions/{dm:o}/{fm:o}/{nested}"), || {
            let base = Scratch::new("c15p");
            set_mode(base.dir(), 0o777);
            let d = base.path("d");
            let file = if nested { "d/n/f" } else { "d/f" };
            let r = as_user(&base, move |base| {
                let d = format!("{base}/d");
                let f = format!("{base}/{file}");
                let _ = fs::create_dir(&d);
                let exists = fm < 0o1000;
                if exists {
                    if let Some(p) = std::path::Path::new(&f).parent() {
                        let _ = fs::create_dir_all(p);
                    }
                    let _ = fs::write(&f, b"old content");
                    set_mode(std::path::Path::new(&f), fm);
                }
                set_mode(std::path::Path::new(&d), dm);
                let enter = dm & 0o100 != 0;
                let make = dm & 0o300 == 0o300;
                let want = if exists { enter && fm & 0o200 != 0 } else { make };
                let sch = mixed(i % 10);
                let r = open_file(&f, &sch);
                let out = match r {
                    Err(r) if r.is_panic() => Err(format!("{r:?}")),
                    Err(_) if want => Err("creation refused although permitted".to_string()),
                    Err(_) => Ok(()),
                    Ok(_) if !want => Err("creation reports success without permission".into()),
                    Ok(mut w) => {
                        let r = apply(&mut w, &Op::Close);
                        set_mode(std::path::Path::new(&d), 0o700);
                        set_mode(std::path::Path::new(&f), 0o600);
                        let full = file_of(&sch, &[]).unwrap_or_default();
                        match fs::read(&f) {
                            Ok(b) if b == full && r.is_ok() => Ok(()),
                            x => Err(format!("close {r:?}, file {:?}", x.map(|b| b.len()))),
                        }
                    }
                };
                set_mode(std::path::Path::new(&d), 0o700);
                set_mode(std::path::Path::new(&f), 0o600);
                if out.is_ok() && !want && exists {
                    match fs::read(&f) {
                        Ok(b) if b == b"old content" => Ok(()),
                        x => Err(format!("refused creation changed the file: {:?}", x.map(|b| b.len()))),
                    }
                } else {
                    out
                }
            });
            let _ = d;
            ctx.steps(1);
            ctx.state(H::new().u(i as u64).u(15).get());
            r
        });
    });
    // shrinking and reuse: files of all histories written over one another
    let hs = histories(ctx.pick(3, 10));
    let n = hs.len();
    parts(ctx, "file over file", n * n);
    ctx.par(n * n, |q| {
        ctx.case(|| format!("{v}/over/{q}"), || {
            let p = dir.path(&format!("over{q}"));
            for h in [&hs[q % n], &hs[q / n]] {
                let (full, _, results) = file_baseline(h)?;
                let mut w = open_file(&p, &h.sch).map_err(|r| format!("{r:?}"))?;
                for (o, want) in h.ops.iter().zip(&results) {
                    let r = apply(&mut w, o);
                    if r != *want {
                        return Err(format!("{o:?}: {r:?}"));
                    }
                }
                let b = fs::read(&p).map_err(|e| e.to_string())?;
                eq(&full, &b, "file written over another one")?;
            }
            ctx.steps(2);
            ctx.state(H::new().u(q as u64).u(16).get());
            let _ = fs::remove_file(&p);
            Ok(())
        });
    });
}

fn set_mode(p: &std::path::Path, m: u32) {
    use std::os::unix::fs::PermissionsExt;
    let _ = fs::set_permissions(p, fs::Permissions::from_mode(m));
}

/// Runs `f` in a forked child as user 65534; its result comes back through a pipe.
fn as_user(base: &Scratch, f: impl FnOnce(&str) -> R<()>) -> R<()> {
    let b = base.dir().to_str().unwrap().to_string();
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Err("harness: pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Err("harness: fork".into());
        }
        if pid == 0 {
            let msg = if libc::setgroups(0, std::ptr::null()) != 0
                || libc::setresgid(65534, 65534, 65534) != 0
                || libc::setresuid(65534, 65534, 65534) != 0
            {
                "skip".to_string()
            } else {
                match catch_unwind(AssertUnwindSafe(|| f(&b))) {
                    Ok(Ok(())) => "ok".to_string(),
                    Ok(Err(e)) => e,
                    Err(p) => format!("panic: {}", panic_text(&*p)),
                }
            };
            libc::write(fds[1], msg.as_ptr() as *const _, msg.len());
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 512];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, 512);
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let s = String::from_utf8_lossy(&out).to_string();
        match s.as_str() {
            "ok" => Ok(()),
            "skip" => Err("harness: cannot change the user".into()),
            "" => Err(format!("child died with status {st}")),
            _ => Err(s),
        }
    }
}

// ---------------------------------------------------------------- C16

pub fn c16(ctx: &Ctx) {
    let v = if ctx.small { "small" } else { "real" };
    let judge = |c: &Case| -> R<()> {
        let sink = Sink::new();
        let mut w = open(build_schema(c.sch), &sink, Some(2)).map_err(|r| format!("{r:?}"))?;
        let mut fin: Option<Vec<u8>> = None;
        let mut m = Model::new(c.sch);
        for (i, o) in c.ops.iter().enumerate() {
            let r = apply(&mut w, o);
            if r.is_panic() {
                return Err(format!("operation {i}: {r:?}"));
            }
            match &fin {
                None => {
                    let why = m.step(o);
                    if !agrees(&r, &why) {
                        return Err(format!("operation {i}: {r:?}, expected {why:?}"));
                    }
                    if *o == Op::Close {
                        let b = sink.bytes();
                        verify::round_trip(&b, &m)?;
                        fin = Some(b);
                    }
                }
                Some(b) => {
                    let empty = matches!(o, Op::M(_, _, p) if p.is_empty());
                    if *o != Op::Close && r.is_ok() && !empty {
                        return Err(format!("operation {i} ({}) after close is accepted", show_ops(&c.ops[i..=i])));
                    }
                    eq(b, &sink.bytes(), "file after close")?;
                }
            }
        }
        let closed = fin.is_some();
        let n = sink.len();
        drop(w);
        if closed && sink.len() != n {
            return Err("dropping a closed writer adds to its file".into());
        }
        ctx.outcome(if closed { "closed" } else { "never closed" });
        Ok(())
    };
    for i in 0..10 {
        let sch = mixed(i);
        let alpha = [
            A::Close,
            A::W("d1", "s1", T::Plus(1), V::Auto),
            A::W("d1", "s1", T::Plus(0), V::Auto),
            A::M("d1", T::Plus(1), vec![("s1", V::Auto), ("s2", V::Auto)]),
            A::Burst("d2", "s1", 6),
            A::W("d2", "nope", T::Plus(1), V::Is(Val::I(1))),
            A::M("d1", T::Plus(1), vec![]),
        ];
        all(ctx, &format!("{v}/hist{i}"), &sch, &alpha, ctx.pick(5, 7), |c| judge(c));
        // many operations after close: enough to pass every internal threshold
        let tails = ctx.pick(30usize, 300);
        ctx.part(&format!("{v}: long tails after close"), (tails * 3) as u64);
        ctx.par(tails * 3, |q| {
            let (n, kind) = (q % tails, q / tails);
            ctx.case(|| format!("{v}/tail{i}/{q}"), || {
                let mut c = Case::new(&sch);
                c.push(&A::Burst("d1", "s1", kind * 5));
                c.push(&A::Close);
                let m = if ctx.small { n } else { n * 30 };
                for k in 0..m {
                    c.push_op(Op::W("d2", "s1", 1_000_000 + k as i64, Val::small(sch[2].ty, k as i64)));
                }
                c.push(&A::Close);
                ctx.steps(c.ops.len());
                ctx.state(c.model.fingerprint() ^ q as u64);
                judge(&c).map_err(|e| format!("{e} -- {m} writes after close"))
            });
        });
    }
    // real file: the bytes on disk do not change after close, whatever is called
    let dir = Scratch::new("c16");
    let hs = histories(ctx.pick(4, 10));
    ctx.par(hs.len(), |hi| {
        ctx.case(|| format!("{v}/file/{hi}"), || {
            let h = &hs[hi];
            let p = dir.path(&format!("{hi}"));
            let mut w = open_file(&p, &h.sch).map_err(|r| format!("{r:?}"))?;
            for o in &h.ops {
                apply(&mut w, o);
            }
            let b = fs::read(&p).map_err(|e| e.to_string())?;
            verify::round_trip(&b, &h.model)?;
            for k in 0..ctx.pick(50, 500) {
                let s = h.sch[k % h.sch.len()];
                let r = apply(&mut w, &Op::W(s.dev, s.sen, 1 << 40 | k as i64, Val::small(s.ty, 1)));
                if r.is_ok() || r.is_panic() {
                    return Err(format!("write after close: {r:?}"));
                }
                if apply(&mut w, &Op::Close).is_panic() {
                    return Err("second close panics".into());
                }
                if k % 10 == 0 {
                    eq(&b, &fs::read(&p).map_err(|e| e.to_string())?, "file after close")?;
                }
            }
            drop(w);
            ctx.steps(100);
            ctx.state(H::new().u(hi as u64).u(160).get());
            eq(&b, &fs::read(&p).map_err(|e| e.to_string())?, "file after drop")
        });
    });
}
