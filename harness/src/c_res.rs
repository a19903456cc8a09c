//! C26: what is dropped, closed through the C interface or freed gives back its memory, its files and
//! its connections. Every history is repeated; what a process holds must not go on growing with it.
use crate::ctx::Ctx;
use crate::drive::*;
use crate::hist::{self, Case, A, T, V};
use crate::model::*;
use crate::net::*;
use crate::oracle::R;
use crate::poison;
use crate::sys::Scratch;
use std::os::unix::fs::FileExt;
use std::sync::atomic::Ordering::Relaxed;
use tsfile_writer::sync::sync_sender::verif::sync;
use tsfile_writer::sync::sync_sender::SyncSender;
use tsfile_writer::writer::tsfile_writer::TsFileWriter;
use tsfile_writer::writer::verif;

fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

/// Repeats `f`. What is set up once and kept (a table, a buffer for the next time) does not count:
/// only what grows with every window of repetitions does.
fn settled(held: &dyn Fn() -> isize, files: bool, f: &mut dyn FnMut() -> R<()>) -> R<()> {
    settled_by(20, 1, &mut |n| {
        for _ in 0..n {
            f()?;
        }
        if n > 10 {
            // another thread may still be at it
            std::thread::sleep(std::time::Duration::from_millis(30));
        }
        Ok((if files { fds() } else { 0 }, held()))
    })
}

/// `run` repeats something so often and says what is open and held then. Suspicions are decided in windows of
/// `many` repetitions; `least` bytes a time are taken for a loss.
fn settled_by(many: usize, least: isize, run: &mut dyn FnMut(usize) -> R<(usize, isize)>) -> R<()> {
    let (mut open, mut last) = run(3)?;
    let first = open;
    let mut more_memory = true;
    for n in [3, 4] {
        let (o, m) = run(n)?;
        more_memory &= m > last;
        (open, last) = (o, m);
    }
    let mut more_files = open > first;
    if !more_memory && !more_files {
        return Ok(());
    }
    let mut kept = 0;
    for _ in 0..3 {
        let (o, m) = run(many)?;
        kept = m - last;
        more_memory &= kept >= many as isize * least;
        more_files &= o >= open + many;
        (open, last) = (o, m);
    }
    if more_files {
        return Err("every repetition of this leaves files or connections open".into());
    }
    if more_memory {
        return Err(format!("every repetition of this leaves {} bytes of memory behind", kept / many as isize));
    }
    Ok(())
}

fn letters(big: usize) -> Vec<A> {
    vec![
        A::W("d1", "s1", T::Plus(1), V::Auto),
        A::M("d1", T::Plus(2), vec![("s1", V::Auto), ("s2", V::Auto)]),
        A::Burst("d2", "s1", big),
        A::Close,
        A::W("d1", "s1", T::Plus(0), V::Auto),
        A::W("d1", "s2", T::Plus(1), V::Is(Val::D(1))),
        A::W("nowhere", "s1", T::Plus(1), V::Auto),
        A::M("d2", T::Plus(1), vec![("s1", V::Auto), ("nothing", V::Auto)]),
    ]
}

/// A writer over a sink in memory: operations, then dropped
fn in_memory(sch: &[Ser], ops: &[Op], plan: &Plan, degree: Option<usize>) -> R<()> {
    settled(&poison::held, false, &mut || {
        let sink = Sink::with(plan.clone());
        run(sch, ops, &sink, degree);
        Ok(())
    })
}

pub fn c26(ctx: &Ctx) {
    let v = if ctx.small { "small" } else { "real" };
    for i in 0..10 {
        let sch = hist::mixed(i);
        hist::all(ctx, &format!("{v}/history{i}"), &sch, &letters(if ctx.small { 14 } else { 150 }), ctx.pick(4, 5), |c| {
            in_memory(c.sch, &c.ops, &Plan::default(), None)
        });
    }
    // failing writes
    let sch = hist::mixed(1);
    let big = letters(if ctx.small { 30 } else { 200 });
    for (b, base) in [vec![0usize, 3], vec![0, 2, 1, 3], vec![2, 1, 2, 4, 3, 0, 3], vec![3, 3]].iter().enumerate() {
        let mut c = Case::new(&sch);
        for l in base {
            c.push(&big[*l]);
        }
        // again after the failure
        c.push_op(Op::Close);
        let sink = Sink::new();
        run(&sch, &c.ops, &sink, None);
        let (n, fl) = (sink.requests(), sink.flushes());
        ctx.part(&format!("{v}: failing requests to the sink"), (2 * (n + fl)) as u64);
        ctx.par(2 * (n + fl), |q| {
            ctx.case(|| format!("{v}/fail/{b}/{q}"), || {
                let mut plan = Plan { permanent: q % 2 == 1, ..Plan::default() };
                if q / 2 < n {
                    plan.fail_at = Some(q / 2);
                } else {
                    plan.flush_at = Some(q / 2 - n);
                }
                ctx.steps(c.ops.len());
                in_memory(&sch, &c.ops, &plan, None).map_err(|e| format!("{e} -- {plan:?}; {}", show_ops(&c.ops)))
            });
        });
    }
    // large trees of the index
    let sizes = [(1, 1), (1, 9), (9, 1), (5, 7), (30, 2)];
    ctx.part(&format!("{v}: schemas"), sizes.len() as u64 * 2);
    ctx.par(sizes.len() * 2, |q| {
        ctx.case(|| format!("{v}/tree/{q}"), || {
            let (nd, ns) = sizes[q / 2];
            let mut sch = vec![];
            for d in 0..nd {
                for s in 0..ns {
                    sch.push(ser(leak(format!("device{d:03}")), leak(format!("sensor{s:03}")), Ty::I64, Enc::Plain, Comp::Snappy));
                }
            }
            let mut ops: Vec<Op> = sch.iter().map(|s| Op::W(s.dev, s.sen, 1, Val::L(7))).collect();
            if q % 2 == 0 {
                ops.push(Op::Close);
            }
            ctx.steps(ops.len());
            in_memory(&sch, &ops, &Plan::default(), Some(2))
        });
    });
    // streams of several pages
    let n = if ctx.small { 400 } else { 60000 };
    let cfg = hist::configs();
    ctx.part(&format!("{v}: long streams"), cfg.len() as u64);
    ctx.par(cfg.len(), |q| {
        ctx.case(|| format!("{v}/stream/{q}"), || {
            let (t, e, c) = cfg[q];
            let sch = [ser("d", "s", t, e, c)];
            let mut c = Case::new(&sch);
            c.push(&A::Burst("d", "s", n));
            c.push(&A::Close);
            ctx.steps(n);
            in_memory(&sch, &c.ops, &Plan::default(), None)
        });
    });
    // the Python classes
    let dir = Scratch::new("c26py");
    for depth in 1..=ctx.pick(4usize, 5) {
        let all = crate::c_py::lifetimes(ctx, depth);
        ctx.part(&format!("{v}: programs of the Python classes"), all.len() as u64);
        ctx.par(all.len(), |k| {
            ctx.case(|| format!("{v}/python/{depth}/{k}"), || {
                settled_by(200, 16, &mut |n| crate::c_py::repeat(&dir, &all[k], n)).map_err(|e| format!("{e} -- {:?}", all[k]))
            });
        });
    }
    children(ctx, v);
}

/// Files, the C interface and senders, in processes of their own where every open file is known
fn children(ctx: &Ctx, v: &str) {
    let dir = Scratch::new("c26");
    let shards = 8;
    let exe = std::env::current_exe().unwrap();
    ctx.par(shards, |k| {
        let sub = dir.path(&format!("{k}"));
        std::fs::create_dir_all(&sub).unwrap();
        let mut a = vec!["child".to_string(), "res".into(), k.to_string(), shards.to_string(), (!ctx.quick() as u8).to_string(), sub.clone()];
        if let Some(o) = &ctx.only {
            a.push(o.trim_start_matches(&format!("{v}/")).to_string());
        }
        let o = match std::process::Command::new(&exe).args(&a).current_dir(&sub).output() {
            Ok(o) => o,
            Err(e) => return ctx.violation(format!("{v}/harness/{k}"), format!("harness: {e}")),
        };
        let mut done = false;
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            // the sender prints, too
            if let Some(r) = l.strip_prefix("violation ") {
                let (key, m) = r.split_once(' ').unwrap_or((r, ""));
                ctx.violation(format!("{v}/{key}"), m.to_string());
            } else if let Some(r) = l.strip_prefix("part ") {
                let (n, what) = r.split_once(' ').unwrap_or(("0", r));
                let n = n.parse().unwrap_or(0);
                ctx.part(&format!("{v}: {what}"), n);
                ctx.traces.fetch_add(n, Relaxed);
                ctx.distinct(n);
            } else if l == "done" {
                done = true;
            }
        }
        if !done {
            let p = std::fs::read_to_string(format!("{sub}/progress")).unwrap_or_default();
            let (key, what) = p.trim().split_once(' ').unwrap_or(("?", ""));
            ctx.violation(format!("{v}/{key}"), format!("the process ended with {}: {what}", o.status));
        }
    });
}

struct Child {
    shard: usize,
    shards: usize,
    only: Option<String>,
    progress: std::fs::File,
    n: usize,
    bad: usize,
    parts: std::collections::BTreeMap<&'static str, usize>,
}

impl Child {
    fn case(&mut self, part: &'static str, key: String, f: &mut dyn FnMut() -> R<()>) {
        self.n += 1;
        if self.n % self.shards != self.shard || self.bad > 2 || self.only.as_ref().map_or(false, |o| *o != key) {
            return;
        }
        let mut line = key.clone();
        line.truncate(300);
        let _ = self.progress.write_all_at(format!("{line:<300}").as_bytes(), 0);
        *self.parts.entry(part).or_insert(0) += 1;
        match settled(&poison::held_by_all, true, f) {
            Ok(()) => {
                if self.only.is_some() {
                    println!("REPLAY ok");
                }
            }
            Err(e) => {
                self.bad += 1;
                println!("\nviolation {} {e}", key.replace(' ', ""));
            }
        }
    }
}

pub fn child(shard: usize, shards: usize, thorough: bool, dir: &str, only: Option<&str>) {
    let mut c = Child {
        shard,
        shards,
        only: only.map(|o| o.to_string()),
        progress: std::fs::File::create(format!("{dir}/progress")).expect("progress"),
        n: 0,
        bad: 0,
        parts: Default::default(),
    };
    let work = format!("{dir}/work");
    std::fs::create_dir(&work).expect("scratch");
    std::env::set_current_dir(&work).expect("scratch");
    poison::count_all();
    files(&mut c, thorough, &work);
    let small = cfg!(tsfile_verif_small);
    for depth in 1..=if thorough { 7 } else { 6 } {
        let mut i = 0;
        crate::c_capi::bare(depth, &mut |what, f| {
            i += 1;
            c.case("call sequences of the C interface", format!("c/{depth}/{i}/{what}").replace(' ', ""), &mut || {
                f(&work, if small { 40 } else { 60 }, depth);
                Ok(())
            });
            // the disk is full before the end of a file: closing fails
            if depth <= 5 {
                for limit in [20, 90] {
                    c.case("call sequences of the C interface", format!("c/{depth}/{i}/full{limit}/{what}").replace(' ', ""), &mut || {
                        limit_files(limit);
                        f(&work, 2, depth);
                        limit_files(libc::RLIM_INFINITY);
                        Ok(())
                    });
                }
            }
        });
    }
    senders(&mut c);
    for (p, n) in &c.parts {
        println!("\npart {n} {p}");
    }
    println!("done");
}

/// No file grows beyond this size
fn limit_files(n: u64) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: n, rlim_max: libc::RLIM_INFINITY });
    }
}

fn files(c: &mut Child, thorough: bool, work: &str) {
    std::fs::write(format!("{work}/plain"), b"x").expect("scratch");
    std::fs::create_dir_all(format!("{work}/directory")).expect("scratch");
    let paths: Vec<Name> = ["a.tsfile", "deep/er/a.tsfile", "directory", "plain/a.tsfile", ""]
        .iter()
        .map(|p| leak(format!("{work}/{p}")))
        .chain(["/dev/full", "", "b.tsfile"])
        .collect();
    let sch = hist::mixed(2);
    let alpha = letters(if cfg!(tsfile_verif_small) { 40 } else { 200 });
    let alpha = &alpha[..6];
    for len in 0..=if thorough { 5 } else { 4 } {
        for k in 0..alpha.len().pow(len) {
            let mut h = Case::new(&sch);
            let mut x = k;
            for _ in 0..len {
                h.push(&alpha[x % alpha.len()]);
                x /= alpha.len();
            }
            for (p, path) in paths.iter().enumerate() {
                c.case("histories of files", format!("file/{len}/{k}/{p}"), &mut || {
                    let w = std::panic::catch_unwind(|| TsFileWriter::new(path, build_schema(&sch), Default::default()));
                    if let Ok(Ok(mut w)) = w {
                        for o in &h.ops {
                            if apply(&mut w, o).is_panic() {
                                break;
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    // schemas alone, and writers that never had a point
    for q in 0..4 {
        c.case("schemas", format!("schema/{q}"), &mut || {
            let s = build_schema(&hist::mixed(q));
            let t = s.clone();
            if q % 2 == 0 {
                drop(s.get_devices().map(|d| d.1.get_timeseries().count()).sum::<usize>());
                drop(verif::writer_on(t, Sink::new(), None).map(|_| ()));
            }
            Ok(())
        });
    }
}

const UUID: &str = "0123456789abcdef0123456789abcdef";

/// What the receiver does with a request
const DOES: [&str; 8] = ["agree", "refuse", "exception", "garbage", "other call", "hang up", "reset", "half an answer"];

fn does(k: usize, f: &[u8]) -> Answer {
    let (name, _, seq, _) = head(f).unwrap_or((b"?".to_vec(), 1, 0, 0));
    let mut exception = field(11, 1, &strb(b"no"));
    exception.extend(field(8, 2, &i32b(6)));
    exception.push(0);
    match k {
        0 => go(reply(&name, seq, 1)),
        1 => go(reply(&name, seq, 0)),
        2 => go(framed(&message(false, &name, 3, seq, &exception))),
        // the client may wait for the rest
        3 => Answer { bytes: framed(b"\x80\x01\x00\x02\x00\x00"), ..hang_up() },
        4 => go(reply(b"endSync?", seq.wrapping_add(1), 1)),
        5 => hang_up(),
        6 => Answer { then: Then::Rst, ..hang_up() },
        _ => {
            let mut a = reply(&name, seq, 1);
            a.truncate(a.len() / 2);
            Answer { bytes: a, ..hang_up() }
        }
    }
}

fn senders(c: &mut Child) {
    let sch = hist::mixed(0);
    std::fs::write("data.tsfile", vec![7u8; 3000]).expect("scratch");
    std::fs::write("large.tsfile", vec![9u8; 300_000]).expect("scratch");
    let mut one = |key: String, ident: usize, steps: &'static [(usize, usize)], file: Option<&'static str>, twice: bool| {
        c.case("senders", key, &mut || {
            if ident != 0 {
                let _ = std::fs::remove_file("uuid.lock");
                let _ = std::fs::remove_dir("uuid.lock");
            }
            match ident {
                2 => std::fs::write("uuid.lock", UUID),
                3 => std::os::unix::fs::symlink("nowhere/identity", "uuid.lock"),
                4 => std::fs::create_dir("uuid.lock"),
                _ => Ok(()),
            }
            .map_err(|e| format!("harness: {e}"))?;
            let mut n = 0;
            let script = Script {
                cut: None,
                shut: None,
                again: false,
                handler: Box::new(move |_, f| {
                    let a = steps.iter().find(|s| s.0 == n).map_or(0, |s| s.1);
                    n += 1;
                    does(a, f)
                }),
            };
            let (_, seen) = with_server(script, |addr| {
                if ident == 5 {
                    limit_files(10);
                }
                let r = std::panic::catch_unwind(|| {
                    let mut s = SyncSender::new(addr, if ident == 1 { None } else { Some("10.0.0.1") }, if ident == 0 { Some(UUID) } else { None }).ok()?;
                    if let Some(f) = file {
                        for _ in 0..1 + twice as usize {
                            let _ = sync(&mut s, f, "root.sg", build_schema(&sch));
                        }
                    }
                    Some(())
                });
                drop(r);
                limit_files(libc::RLIM_INFINITY);
            });
            if seen.timeout {
                return Err("the connection of a sender that is gone stays open".into());
            }
            if ident != 0 {
                let left: Vec<String> = std::fs::read_dir(".")
                    .map_err(|e| format!("harness: {e}"))?
                    .filter_map(|e| e.ok()?.file_name().into_string().ok())
                    .filter(|f| f.contains("uuid") && f != "uuid.lock")
                    .collect();
                if !left.is_empty() {
                    return Err(format!("a start leaves {left:?} behind"));
                }
            }
            Ok(())
        });
    };
    // an identity that is given, missing, stored, a link to nothing, a directory, or does not fit on the disk
    for ident in 0..6 {
        for k in 0..DOES.len() {
            one(format!("sender/open/{ident}/{k}"), ident, Box::leak(Box::new([(0, k)])), None, false);
        }
    }
    for step in 1..=9 {
        for k in 0..DOES.len() {
            if k > 0 || step == 1 {
                one(format!("sender/sync/{step}/{k}"), 0, Box::leak(Box::new([(step, k)])), Some("data.tsfile"), step % 2 == 0);
            }
        }
    }
    one("sender/large".into(), 0, &[], Some("large.tsfile"), true);
    one("sender/missing".into(), 0, &[], Some("missing.tsfile"), true);
    one("sender/directory".into(), 0, &[], Some("."), true);
    // nobody listens
    c.case("senders", "sender/nobody".into(), &mut || {
        let _ = std::panic::catch_unwind(|| SyncSender::new("127.0.0.1:9", Some("10.0.0.1"), Some(UUID)).is_ok());
        let _ = std::panic::catch_unwind(|| SyncSender::new("nonsense", Some("10.0.0.1"), Some(UUID)).is_ok());
        Ok(())
    });
}
