//! C10, C11: determinism, independence of writers.
use crate::c_write::*;
use crate::clock;
use crate::ctx::{Ctx, H};
use crate::drive::*;
use crate::hist::*;
use crate::model::*;
use crate::race;
use crate::oracle::*;
use crate::verify;
use std::collections::BTreeMap;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::Schema;

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

/// All interleavings of lists of the given lengths, as sequences of list numbers
pub fn interleavings(lens: &[usize]) -> Vec<Vec<u8>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i as u8);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}

/// Schema built in the given orders; `redeclare` first adds every sensor (and device) with other
/// content.
fn ordered_schema(sch: &[Ser], dev_order: &[usize], sen_order: &[Vec<usize>], redeclare: bool) -> Schema<'static> {
    let mut devs: Vec<(Name, Vec<Ser>)> = vec![];
    for s in sch {
        match devs.iter_mut().find(|d| d.0 == s.dev) {
            Some(d) => d.1.push(*s),
            None => devs.push((s.dev, vec![*s])),
        }
    }
    let mut b = TsFileSchemaBuilder::new();
    if redeclare {
        for d in &devs {
            let mut db = DeviceBuilder::new();
            db.add("other", Ty::F32.api(), Enc::Plain.api(), Comp::Snappy.api());
            b.add(d.0, db.build());
        }
    }
    for i in dev_order {
        let d = &devs[*i];
        let mut db = DeviceBuilder::new();
        if redeclare {
            for s in &d.1 {
                db.add(s.sen, Ty::F32.api(), Enc::Plain.api(), Comp::Snappy.api());
            }
        }
        for j in &sen_order[*i] {
            let s = d.1[*j];
            db.add(s.sen, s.ty.api(), s.enc.api(), s.comp.api());
        }
        b.add(d.0, db.build());
    }
    b.build()
}

/// Ok(None) when an automatic flush happened
fn bytes_of(schema: Schema<'static>, ops: &[Op], degree: Option<usize>) -> R<Option<Vec<u8>>> {
    let sink = Sink::new();
    let mut w = open(schema, &sink, degree).map_err(|r| format!("{r:?}"))?;
    let head = sink.len();
    for o in ops {
        let r = apply(&mut w, o);
        if !r.is_ok() {
            return Err(format!("{}: {r:?}", show_ops(std::slice::from_ref(o))));
        }
    }
    let flushed = sink.len() != head;
    let r = apply(&mut w, &Op::Close);
    if !r.is_ok() {
        return Err(format!("close: {r:?}"));
    }
    Ok(if flushed { None } else { Some(sink.take()) })
}

fn same(a: &[u8], b: &[u8]) -> R<()> {
    if a == b {
        return Ok(());
    }
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    Err(format!("files of {} and {} bytes differ from byte {i}", a.len(), b.len()))
}

fn point(s: &Ser, j: usize, n: usize) -> Op {
    Op::W(s.dev, s.sen, 3 * j as i64 + 1, pat_val(s.ty, Pat::Noise, j * 31 + n))
}

/// All ways to merge neighbouring single writes of one device and timestamp into multi-point ones
fn groupings(ops: &[Op]) -> Vec<Vec<Op>> {
    let join: Vec<bool> = ops
        .windows(2)
        .map(|w| match (&w[0], &w[1]) {
            (Op::W(d, _, t, _), Op::W(e, _, u, _)) => d == e && t == u,
            _ => false,
        })
        .collect();
    let places: Vec<usize> = join.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect();
    let mut out = vec![];
    for mask in 0..1usize << places.len().min(10) {
        let mut v: Vec<Op> = vec![];
        let mut cur: Vec<&Op> = vec![];
        for (i, o) in ops.iter().enumerate() {
            cur.push(o);
            let joined = places.iter().position(|p| *p == i).map_or(false, |b| b < 10 && mask >> b & 1 == 1);
            if !joined {
                v.push(merge(&cur));
                cur.clear();
            }
        }
        out.push(v);
    }
    out
}

fn merge(ops: &[&Op]) -> Op {
    if ops.len() == 1 {
        return ops[0].clone();
    }
    let mut ps = vec![];
    let mut head = None;
    for o in ops {
        if let Op::W(d, s, t, v) = o {
            head = Some((*d, *t));
            ps.push((*s, *v));
        }
    }
    let (d, t) = head.unwrap();
    Op::M(d, t, ps)
}

fn contents(i: usize) -> Vec<Ser> {
    let c = configs();
    let g = |k: usize| c[(i + k) % c.len()];
    let mk = |d, s, k: usize| ser(d, s, g(k).0, g(k).1, g(k).2);
    vec![mk("root.d2", "s1", 0), mk("root.d1", "s2", 3), mk("root.d1", "s1", 6), mk("root.d2", "a", 7)]
}

pub fn c10(ctx: &Ctx) {
    let name = if ctx.small { "small" } else { "real" };
    for i in 0..10 {
        let sch = contents(i);
        // interleavings of the four series, with several lengths each, and their groupings
        let shapes: Vec<Vec<usize>> = if ctx.small {
            ctx.pick(vec![vec![2, 2, 1, 1], vec![3, 0, 2, 1], vec![4, 1, 0, 0]], vec![vec![2, 2, 2, 1], vec![3, 1, 2, 1], vec![6, 1, 1, 0], vec![4, 4, 0, 0]])
        } else {
            ctx.pick(vec![vec![2, 2, 2, 1], vec![3, 3, 1, 0], vec![5, 0, 2, 1]], vec![vec![2, 2, 2, 2], vec![3, 3, 2, 1], vec![6, 2, 2, 1]])
        };
        for (si, shape) in shapes.iter().enumerate() {
            let all_orders = interleavings(shape);
            let base: Vec<Op> = (0..4).flat_map(|k| (0..shape[k]).map(move |j| (k, j))).map(|(k, j)| point(&sch[k], j, k)).collect();
            let want = match bytes_of(build_schema(&sch), &base, None) {
                Ok(w) => w,
                Err(e) => {
                    ctx.case(|| format!("{name}/base/{i}/{si}"), || Err(e.clone()));
                    continue;
                }
            };
            ctx.part(&format!("{name}: interleavings of {shape:?} points"), all_orders.len() as u64);
            ctx.par(all_orders.len(), |q| {
                let mut at = [0usize; 4];
                let ops: Vec<Op> = all_orders[q]
                    .iter()
                    .map(|k| {
                        let k = *k as usize;
                        at[k] += 1;
                        point(&sch[k], at[k] - 1, k)
                    })
                    .collect();
                ctx.case(|| format!("{name}/order/{i}/{si}/{q}"), || {
                    for (g, ops) in groupings(&ops).into_iter().enumerate() {
                        ctx.steps(ops.len());
                        let mut h = H::new();
                        ctx.state(h.u(i as u64).u(si as u64).u(q as u64).u(g as u64).get());
                        let b = bytes_of(build_schema(&sch), &ops, None)?;
                        match (&b, &want) {
                            (Some(b), Some(w)) => {
                                same(w, b).map_err(|e| format!("{e} -- {sch:?}: {} against {}", show_ops(&base), show_ops(&ops)))?;
                                ctx.outcome("compared");
                            }
                            _ => ctx.outcome("flushed automatically"),
                        }
                    }
                    Ok(())
                });
            });
        }
        // orders of insertion into the schema
        let dev_orders = perms(2);
        let sen_orders: Vec<Vec<Vec<usize>>> =
            perms(2).into_iter().flat_map(|a| perms(2).into_iter().map(move |b| vec![a.clone(), b])).collect();
        let n = dev_orders.len() * sen_orders.len() * 2;
        let ops: Vec<Op> = (0..2).flat_map(|j| (0..4).map(move |k| (k, j))).map(|(k, j)| point(&sch[k], j, k)).collect();
        let reps = ctx.pick(4, 40);
        ctx.part(&format!("{name}: orders of schema insertion"), (n * reps) as u64);
        let want = bytes_of(build_schema(&sch), &ops, None);
        ctx.par(n * reps, |q0| {
            let q = q0 % n;
            ctx.case(|| format!("{name}/insertion/{i}/{q0}"), || {
                let want = want.clone()?;
                let (a, q1) = (q % 2, q / 2);
                let (b, r) = (q1 % 4, q1 / 4);
                let s = ordered_schema(&sch, &dev_orders[a], &sen_orders[b], r == 1);
                ctx.steps(ops.len());
                ctx.state(H::new().u(q0 as u64).u(i as u64).u(77).get());
                match (bytes_of(s, &ops, None)?, want) {
                    (Some(b), Some(w)) => same(&w, &b),
                    (None, None) => Ok(()),
                    _ => Err("automatic flush with one order of the schema but not with the other".into()),
                }
            });
        });
    }
    // larger schemas: every rotation and reversal of the insertion order, small fan-outs
    for (nd, ns) in ctx.pick(vec![(6, 3), (1, 17), (23, 1)], vec![(6, 3), (1, 17), (23, 1), (9, 9), (40, 2), (2, 40)]) {
        let sch = grid(nd, ns);
        for deg in [2usize, 3, 256] {
            let ops: Vec<Op> = sch.iter().take(if ctx.small { 3 } else { usize::MAX }).enumerate().map(|(k, s)| point(s, 0, k)).collect();
            let want = bytes_of(build_schema_sorted(&sch), &ops, Some(deg));
            ctx.part(&format!("{name}: rotations of larger schemas"), (nd * ns * 4) as u64);
            ctx.par(nd * ns * 4, |q| {
                ctx.case(|| format!("{name}/rotate/{nd}/{ns}/{deg}/{q}"), || {
                    let want = want.clone()?;
                    let (rd, q1) = (q % nd, q / nd);
                    let (rs, m) = (q1 % ns, q1 / ns);
                    let turn = |n: usize, r: usize, rev: bool| -> Vec<usize> {
                        let mut v: Vec<usize> = (0..n).map(|x| (x + r) % n).collect();
                        if rev {
                            v.reverse();
                        }
                        v
                    };
                    let s = ordered_schema(&sch, &turn(nd, rd, m & 1 == 1), &vec![turn(ns, rs, m & 2 == 2); nd], false);
                    let mut o = ops.clone();
                    if m & 1 == 1 {
                        o.reverse();
                    }
                    o.rotate_left(q % ops.len().max(1));
                    ctx.steps(o.len());
                    ctx.state(H::new().u(q as u64).u(nd as u64).u(ns as u64).u(deg as u64).get());
                    match (bytes_of(s, &o, Some(deg))?, want) {
                        (Some(b), Some(w)) => same(&w, &b),
                        (None, None) => Ok(()),
                        _ => Err("automatic flush with one order but not with the other".into()),
                    }
                });
            });
        }
    }
    if !ctx.small {
        // rows of three sensors over several pages: every way to spread a row over calls, and every
        // pair of ways alternating
        let ways: Vec<Vec<Vec<usize>>> = {
            let mut v: Vec<Vec<Vec<usize>>> = vec![];
            for p in perms(3) {
                for cut in 0..4usize {
                    let mut w = vec![vec![p[0]]];
                    for (i, x) in p.iter().enumerate().skip(1) {
                        if cut >> (i - 1) & 1 == 1 {
                            w.push(vec![]);
                        }
                        w.last_mut().unwrap().push(*x);
                    }
                    v.push(w);
                }
            }
            v
        };
        let cfg = configs();
        let np = ways.len();
        for i in 0..ctx.pick(3, cfg.len()) {
            let sch: Vec<Ser> = (0..3)
                .map(|k| {
                    let c = cfg[(i * 5 + k * 7) % cfg.len()];
                    ser("d", ["a", "b", "c"][k], c.0, c.1, c.2)
                })
                .collect();
            // a is the first to fill a page, c has gaps
            let rows: Vec<(i64, Vec<usize>)> = (0..9000usize)
                .map(|j| (pat_time(Pat::Wild, j) - (1 << 60), (0..3).filter(|k| *k < 2 || j % 3 > 0).collect()))
                .collect();
            let mk = |x: usize, y: usize| -> Vec<Op> {
                let mut v = vec![];
                for (j, (t, there)) in rows.iter().enumerate() {
                    for call in &ways[if j % 2 == 0 { x } else { y }] {
                        let ps: Vec<(Name, Val)> =
                            call.iter().filter(|k| there.contains(k)).map(|k| (sch[*k].sen, pat_val(sch[*k].ty, Pat::Wild, j * 3 + k))).collect();
                        match (ps.len(), (x + y) % 2) {
                            (0, _) => {}
                            (1, 0) => v.push(Op::W("d", ps[0].0, *t, ps[0].1)),
                            _ => v.push(Op::M("d", *t, ps)),
                        }
                    }
                }
                v
            };
            let want = bytes_of(build_schema(&sch), &mk(0, 0), None);
            ctx.part("real: ways to spread rows over calls", (np * np) as u64);
            ctx.par(np * np, |q| {
                ctx.case(|| format!("rows/{i}/{q}"), || {
                    let want = want.clone()?.ok_or("flushed")?;
                    let ops = mk(q / np, q % np);
                    ctx.steps(ops.len());
                    ctx.state(H::new().u(q as u64).u(i as u64).u(98).get());
                    same(&want, &bytes_of(build_schema(&sch), &ops, None)?.ok_or("flushed")?)
                });
            });
        }
        // several pages per series: blocks of points of three series in every order
        let kinds = ctx.pick(4, 10);
        for i in 0..kinds {
            let sch: Vec<Ser> = contents(i).into_iter().take(3).collect();
            let block = 5000usize;
            let lens = [3usize, 2, 2];
            let orders = interleavings(&lens);
            let mk = |ord: &[u8]| -> Vec<Op> {
                let mut at = [0usize; 3];
                let mut v = vec![];
                for k in ord {
                    let k = *k as usize;
                    for _ in 0..block {
                        v.push(point(&sch[k], at[k], k));
                        at[k] += 1;
                    }
                }
                v
            };
            let want = bytes_of(build_schema(&sch), &mk(&[0, 0, 0, 1, 1, 2, 2]), None);
            ctx.part("real: block interleavings over several pages", orders.len() as u64);
            ctx.par(orders.len(), |q| {
                ctx.case(|| format!("pages/{i}/{q}"), || {
                    let want = want.clone()?.ok_or("flushed")?;
                    let ops = mk(&orders[q]);
                    ctx.steps(ops.len());
                    ctx.state(H::new().u(q as u64).u(i as u64).u(99).get());
                    same(&want, &bytes_of(build_schema(&sch), &ops, None)?.ok_or("flushed")?)
                });
            });
        }
    }
    times(ctx, name);
    places(ctx, name);
}

/// Bytes left at the end and the number of bytes after every operation. Before operation `p` (or
/// every one) the clock is put ahead by `by`.
fn timed(sch: &[Ser], ops: &[Op], p: Option<usize>, by: (i128, i128)) -> R<(Vec<u8>, Vec<usize>)> {
    let sink = Sink::new();
    let step = |k: usize| {
        if p.map_or(true, |p| p == k) {
            clock::advance(by.0, by.1);
        }
    };
    step(0);
    let r = (|| {
        let mut w = open(build_schema(sch), &sink, None).map_err(|r| format!("{r:?}"))?;
        let mut at = vec![];
        for (k, o) in ops.iter().enumerate() {
            step(k + 1);
            let r = apply(&mut w, o);
            if !r.is_ok() {
                return Err(format!("{}: {r:?}", show_ops(std::slice::from_ref(o))));
            }
            at.push(sink.len());
        }
        Ok(at)
    })();
    clock::reset();
    Ok((sink.take(), r?))
}

/// The time of day and how long an operation takes change nothing
fn times(ctx: &Ctx, name: &str) {
    const S: i128 = 1_000_000_000;
    const D: i128 = 86_400 * S;
    // both clocks go on; or the wall clock is set
    let jumps: Vec<(i128, i128)> = vec![
        (1_000_000, 1_000_000),
        (S / 5, S / 5),
        (S + 1, S + 1),
        (6 * S, 6 * S),
        (61 * S, 61 * S),
        (3601 * S, 3601 * S),
        (D + S, D + S),
        (40 * D, 40 * D),
        (36_525 * D, 36_525 * D),
        (10 * D, 0),
        (-3600 * S, 0),
        (-10 * D, 0),
        (-19_000 * D, 0),
        (-40_000 * D, 0),
    ];
    for i in 0..ctx.pick(4, 10) {
        let sch = contents(i);
        // several automatic flushes (small), one page each (real); then the same with several pages
        for (v, n) in [7usize, ctx.pick(150, 1200)].into_iter().enumerate() {
            let mut ops: Vec<Op> = vec![];
            for j in 0..n {
                for (k, s) in sch.iter().enumerate() {
                    if j % (k + 1) == 0 {
                        ops.push(point(s, j, k));
                    }
                }
            }
            ops.push(Op::Close);
            // operations before which time passes
            let mut at: Vec<Option<usize>> = (0..=ops.len()).step_by(if v == 0 { 1 } else { ops.len() / 23 }).map(Some).collect();
            at.extend([Some(ops.len()), None]);
            let want = timed(&sch, &ops, Some(0), (0, 0));
            ctx.part(&format!("{name}: logging"), 1);
            ctx.case(|| format!("{name}/logging/{i}/{v}"), || {
                let w0 = crate::noise::words();
                crate::noise::set(false);
                let a = timed(&sch, &ops, Some(0), (0, 0))?;
                crate::noise::set(true);
                let b = timed(&sch, &ops, Some(0), (0, 0))?;
                ctx.outcome(if crate::noise::words() > w0 { "messages logged" } else { "nothing logged" });
                if a.1 != b.1 {
                    return Err("with logging, bytes are written at other times".into());
                }
                same(&a.0, &b.0).map_err(|e| format!("with logging: {e}"))
            });
            let total = at.len() * jumps.len();
            ctx.part(&format!("{name}: time passing between operations"), total as u64);
            ctx.par(total, |q| {
                ctx.case(|| format!("{name}/time/{i}/{v}/{q}"), || {
                    let want = want.clone()?;
                    let (p, j) = (at[q / jumps.len()], jumps[q % jumps.len()]);
                    let n0 = clock::reads();
                    let got = timed(&sch, &ops, p, j)?;
                    ctx.steps(ops.len());
                    ctx.outcome(if clock::reads() == n0 { "the clock is not read" } else { "the clock is read" });
                    ctx.state(H::new().u(q as u64).u(i as u64).u(v as u64).u(78).get());
                    let what = || format!("{sch:?}, clock ahead by {j:?} ns before operation {p:?} of {}", ops.len());
                    same(&want.0, &got.0).map_err(|e| format!("{e} -- {}", what()))?;
                    match want.1.iter().zip(&got.1).position(|(a, b)| a != b) {
                        None => Ok(()),
                        Some(k) => Err(format!("after operation {k} {} bytes are written against {} -- {}", got.1[k], want.1[k], what())),
                    }
                });
            });
        }
    }
}

/// Other processes: the same program started elsewhere, with another environment, by another user
fn places(ctx: &Ctx, name: &str) {
    let exe = std::env::current_exe().unwrap();
    let here = child_digest();
    let sets: Vec<Vec<(&str, &str)>> = vec![
        vec![],
        vec![("RUST_LOG", "trace"), ("RUST_BACKTRACE", "full")],
        vec![("LANG", "de_DE.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("LANGUAGE", "fr")],
        vec![("TZ", "Pacific/Chatham")],
        vec![("HOME", "/nowhere"), ("USER", "somebody"), ("PATH", "/bin"), ("TMPDIR", "/nowhere")],
        vec![("DEBUG", "1"), ("VERBOSE", "1"), ("CI", "true"), ("NO_COLOR", "1"), ("RAYON_NUM_THREADS", "1")],
        vec![("MALLOC_ARENA_MAX", "1"), ("MALLOC_PERTURB_", "85"), ("RUST_MIN_STACK", "8388608")],
    ];
    let dir = crate::sys::Scratch::new("c10");
    let n = sets.len() * 2 * 2 * 2 * ctx.pick(1, 5);
    ctx.part(&format!("{name}: other processes"), n as u64);
    ctx.par(n, |k| {
        ctx.case(|| format!("{name}/process/{k}"), || {
            let (set, keep, cwd, limit) = (&sets[k % sets.len()], k / sets.len() % 2, k / sets.len() / 2 % 2, k / sets.len() / 4 % 2);
            let mut c = std::process::Command::new(&exe);
            c.args(["child", "digest"]);
            if keep == 0 {
                c.env_clear();
            }
            c.envs(set.iter().cloned()).env("TSMC_NOISE", "x".repeat(k));
            if cwd == 1 {
                c.current_dir(dir.dir());
            }
            if limit == 1 {
                // few processors, few descriptors, little address space
                use std::os::unix::process::CommandExt;
                unsafe {
                    c.pre_exec(|| {
                        let mut set: libc::cpu_set_t = std::mem::zeroed();
                        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
                        let one = (0..libc::CPU_SETSIZE as usize).find(|i| libc::CPU_ISSET(*i, &set)).unwrap_or(0);
                        libc::CPU_ZERO(&mut set);
                        libc::CPU_SET(one, &mut set);
                        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                        for (r, v) in [(libc::RLIMIT_NOFILE, 16u64), (libc::RLIMIT_AS, 2 << 30), (libc::RLIMIT_STACK, 16 << 20)] {
                            libc::setrlimit(r, &libc::rlimit { rlim_cur: v, rlim_max: v });
                        }
                        Ok(())
                    });
                }
            }
            let o = c.output().map_err(|e| format!("harness: {e}"))?;
            let got = String::from_utf8_lossy(&o.stdout).trim().to_string();
            ctx.steps(1);
            ctx.state(H::new().u(k as u64).u(79).get());
            if got != here {
                return Err(format!(
                    "another process ({set:?}, environment kept: {keep}, other directory: {cwd}, limits: {limit}) writes other bytes: {got} against {here}"
                ));
            }
            Ok(())
        });
    });
}

/// Digest of a few files, printed by child processes
pub fn child_digest() -> String {
    let mut h = H::new();
    for i in 0..10 {
        let sch = contents(i);
        let ops: Vec<Op> = (0..2).flat_map(|j| (0..4).map(move |k| (k, j))).map(|(k, j)| point(&sch[k], j, k)).collect();
        match bytes_of(build_schema(&sch), &ops, Some(2)) {
            Ok(Some(b)) => h.b(&b),
            Ok(None) => h.u(1),
            Err(e) => h.s(&e),
        };
    }
    let g = grid(7, 7);
    let ops: Vec<Op> = g.iter().take(if cfg!(tsfile_verif_small) { 3 } else { 49 }).enumerate().map(|(k, s)| point(s, 0, k)).collect();
    match bytes_of(build_schema(&g), &ops, Some(3)) {
        Ok(Some(b)) => h.b(&b),
        Ok(None) => h.u(1),
        Err(e) => h.s(&e),
    };
    format!("{:016x}", h.get())
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug)]
enum Step {
    Create,
    Do(Op),
    Drop,
}

struct Script {
    sch: Vec<Ser>,
    steps: Vec<Step>,
}

struct Live {
    sink: Sink,
    w: Option<W>,
    res: Vec<Res>,
}

/// A writer is handed from thread to thread, never used by two at once (every hand-over is a
/// channel message or a join), and its parts have no thread affinity.
unsafe impl Send for Live {}

fn exec(s: &Script, l: &mut Live, i: usize) {
    match &s.steps[i] {
        Step::Create => match open(build_schema(&s.sch), &l.sink, Some(3)) {
            Ok(w) => {
                l.w = Some(w);
                l.res.push(Res::Ok);
            }
            Err(r) => l.res.push(r),
        },
        Step::Do(o) => {
            if let Some(w) = &mut l.w {
                l.res.push(apply(w, o));
            }
        }
        Step::Drop => {
            l.w = None;
            l.res.push(Res::Ok);
        }
    }
}

fn fresh() -> Live {
    Live { sink: Sink::new(), w: None, res: vec![] }
}

fn solo(s: &Script) -> (Vec<u8>, Vec<Res>) {
    let mut l = fresh();
    for i in 0..s.steps.len() {
        exec(s, &mut l, i);
    }
    l.w = None;
    (l.sink.take(), l.res)
}

fn script(k: usize, burst: usize, close: bool) -> Script {
    let sch = mixed(k);
    let mut c = Case::new(&sch);
    c.push(&A::W("d1", "s1", T::Plus(1 + k as i64), V::Auto));
    c.push(&A::Burst("d1", "s2", burst));
    c.push(&A::W("d2", "s1", T::Plus(1), V::Auto));
    c.push(&A::W("d1", "s1", T::Plus(0), V::Auto));
    let mut steps = vec![Step::Create];
    steps.extend(c.ops.iter().cloned().map(Step::Do));
    if close {
        steps.push(Step::Do(Op::Close));
    }
    steps.push(Step::Drop);
    Script { sch, steps }
}

/// Columns of other lengths than those of any other kind
fn uneven(k: usize) -> Script {
    let sch = mixed(k);
    let mut c = Case::new(&sch);
    c.push(&A::W("d1", "s1", T::Plus(1 + k as i64), V::Auto));
    c.push(&A::Burst("d1", "s2", 3 + k));
    c.push(&A::W("d1", "s1", T::Plus(5 << k), V::Auto));
    c.push(&A::W("d1", "s1", T::Plus(300 << (2 * k)), V::Auto));
    for j in 0..=k {
        c.push(&A::W("d2", "s1", T::Plus(7 << j), V::Auto));
    }
    let mut steps = vec![Step::Create];
    steps.extend(c.ops.iter().cloned().map(Step::Do));
    steps.push(Step::Do(Op::Close));
    steps.push(Step::Drop);
    Script { sch, steps }
}

/// Shorter script: one step per phase, the burst in one step
fn short(k: usize, n: usize, close: bool) -> Script {
    let sch = mixed(k);
    let mut c = Case::new(&sch);
    for j in 0..n {
        c.push(&match (j + k) % 3 {
            0 => A::W("d1", "s1", T::Plus(1 + k as i64), V::Auto),
            1 => A::M("d1", T::Plus(2), vec![("s1", V::Auto), ("s2", V::Auto)]),
            _ => A::W("d2", "s1", T::Plus(1), V::Auto),
        });
    }
    let mut steps = vec![Step::Create];
    steps.extend(c.ops.iter().cloned().map(Step::Do));
    steps.push(if close { Step::Do(Op::Close) } else { Step::Drop });
    Script { sch, steps }
}

fn compare(i: usize, got: (Vec<u8>, Vec<Res>), want: &(Vec<u8>, Vec<Res>)) -> R<()> {
    if got.1 != want.1 {
        return Err(format!("writer {i} returns {:?}, alone {:?}", got.1, want.1));
    }
    same(&want.0, &got.0).map_err(|e| format!("writer {i}, alone and together: {e}"))
}

type Job = Box<dyn FnOnce() + Send>;

/// A thread that runs jobs handed to it, one at a time
struct Worker {
    tx: Sender<Job>,
    done: Receiver<()>,
}
impl Worker {
    fn new() -> Worker {
        let (tx, rx) = channel::<Job>();
        let (dtx, done) = channel();
        std::thread::spawn(move || {
            for j in rx {
                j();
                if dtx.send(()).is_err() {
                    break;
                }
            }
        });
        Worker { tx, done }
    }
    fn run(&self, j: Job) {
        self.tx.send(j).expect("worker");
        self.done.recv().expect("worker");
    }
}

/// Sink that runs something at one of its write requests
#[derive(Clone)]
struct Hooked {
    inner: Sink,
    at: usize,
    n: Arc<Mutex<(usize, Option<Job>)>>,
}
impl std::io::Write for Hooked {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let job = {
            let mut g = self.n.lock().unwrap();
            let k = g.0;
            g.0 += 1;
            if k == self.at {
                g.1.take()
            } else {
                None
            }
        };
        if let Some(j) = job {
            j();
        }
        self.inner.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn c11(ctx: &Ctx) {
    let name = if ctx.small { "small" } else { "real" };
    races(ctx, name);
    let pairs: Vec<(usize, usize)> = ctx.pick(
        (0..10).map(|i| (i, (i * 3 + 1) % 10)).collect(),
        (0..10).flat_map(|i| (0..10).map(move |j| (i, j))).collect(),
    );
    // two writers, operation by operation, one thread
    let two = |n: usize, threads: bool, close2: bool| {
        for (a, b) in &pairs {
            let s = Arc::new([short(*a, n, true), short(*b, n, close2)]);
            let want = Arc::new([solo(&s[0]), solo(&s[1])]);
            let ord = interleavings(&[s[0].steps.len(), s[1].steps.len()]);
            ctx.part(
                &format!("{name}: two writers of {n} operations, {}", if threads { "a thread each" } else { "one thread" }),
                ord.len() as u64,
            );
            ctx.par(ord.len(), |q| {
                ctx.case(|| format!("{name}/two/{n}/{threads}/{close2}/{a}/{b}/{q}"), || {
                    let live: Vec<Arc<Mutex<Live>>> = (0..2).map(|_| Arc::new(Mutex::new(fresh()))).collect();
                    let mut at = [0usize; 2];
                    let workers: Vec<Worker> = if threads { (0..2).map(|_| Worker::new()).collect() } else { vec![] };
                    for k in &ord[q] {
                        let k = *k as usize;
                        if threads {
                            let (s, l, i) = (s.clone(), live[k].clone(), at[k]);
                            workers[k].run(Box::new(move || exec(&s[k], &mut l.lock().unwrap(), i)));
                        } else {
                            exec(&s[k], &mut live[k].lock().unwrap(), at[k]);
                        }
                        at[k] += 1;
                    }
                    ctx.steps(ord[q].len());
                    ctx.state(H::new().u(q as u64).u(*a as u64).u(*b as u64).u(n as u64 * 4 + threads as u64).get());
                    for k in 0..2 {
                        let mut l = live[k].lock().unwrap();
                        let got = (l.sink.bytes(), std::mem::take(&mut l.res));
                        compare(k, got, &want[k])
                            .map_err(|e| format!("{e} -- order {:?}, scripts {:?} and {:?}", ord[q], s[0].steps, s[1].steps))?;
                    }
                    Ok(())
                });
            });
        }
    };
    two(ctx.pick(4, 5), false, true);
    two(3, false, false);
    two(ctx.pick(2, 3), true, true);
    // three writers
    let trips = ctx.pick(3, 10);
    for t in 0..trips {
        let s = [short(t, 2, true), short(t + 4, 2, t % 2 == 0), short((t * 7 + 2) % 10, 2, true)];
        let want: Vec<_> = s.iter().map(solo).collect();
        let ord = interleavings(&[4, 4, 4]);
        ctx.part(&format!("{name}: three writers"), ord.len() as u64);
        ctx.par(ord.len(), |q| {
            ctx.case(|| format!("{name}/three/{t}/{q}"), || {
                let mut live: Vec<Live> = (0..3).map(|_| fresh()).collect();
                let mut at = [0usize; 3];
                for k in &ord[q] {
                    let k = *k as usize;
                    exec(&s[k], &mut live[k], at[k]);
                    at[k] += 1;
                }
                ctx.steps(12);
                ctx.state(H::new().u(q as u64).u(t as u64).u(333).get());
                for (k, l) in live.into_iter().enumerate() {
                    compare(k, (l.sink.bytes(), l.res), &want[k]).map_err(|e| format!("{e} -- order {:?}", ord[q]))?;
                }
                Ok(())
            });
        });
    }
    // preemption inside an operation: at every request of the first writer to its file, a prefix of
    // the second writer's operations runs (on the same thread, or on another), the rest later
    for (a, b) in &pairs {
        for burst in ctx.pick(vec![9], vec![0, 3, 9, 20]) {
            let s = Arc::new([script(*a, burst, true), script(*b, burst, true)]);
            let want = [solo(&s[0]), solo(&s[1])];
            let probe = {
                let mut l = fresh();
                for i in 0..s[0].steps.len() {
                    exec(&s[0], &mut l, i);
                }
                l.sink.requests()
            };
            let nb = s[1].steps.len() + 1;
            let total = probe * nb * 2;
            ctx.part(&format!("{name}: preemption at every write request"), total as u64);
            ctx.par(total, |q| {
                let (at, q1) = (q % probe, q / probe);
                let (pre, thread) = (q1 % nb, q1 / nb == 1);
                ctx.case(|| format!("{name}/preempt/{a}/{b}/{burst}/{q}"), || {
                    let lb = Arc::new(Mutex::new(fresh()));
                    let (s2, l2) = (s.clone(), lb.clone());
                    let run = move || {
                        let mut l = l2.lock().unwrap();
                        for i in 0..pre {
                            exec(&s2[1], &mut l, i);
                        }
                    };
                    let late: Arc<Mutex<Option<std::thread::JoinHandle<()>>>> = Default::default();
                    let late2 = late.clone();
                    let job: Job = if thread {
                        Box::new(move || {
                            let (tx, rx) = channel();
                            let h = std::thread::spawn(move || {
                                run();
                                let _ = tx.send(());
                            });
                            // a common lock may make it wait for us
                            let _ = rx.recv_timeout(std::time::Duration::from_secs(3));
                            *late2.lock().unwrap() = Some(h);
                        })
                    } else {
                        Box::new(run)
                    };
                    let hooked = Hooked { inner: Sink::new(), at, n: Arc::new(Mutex::new((0, Some(job)))) };
                    // the first writer, on the hooked sink
                    let mut res0 = vec![];
                    {
                        let mut w = None;
                        for st in &s[0].steps {
                            match st {
                                Step::Create => {
                                    let h = hooked.clone();
                                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                        tsfile_writer::writer::verif::writer_on(build_schema(&s[0].sch), h, Some(3))
                                    }));
                                    match r {
                                        Ok(Ok(x)) => {
                                            w = Some(x);
                                            res0.push(Res::Ok);
                                        }
                                        Ok(Err(e)) => res0.push(res(Err(e))),
                                        Err(p) => res0.push(Res::Panic(crate::ctx::panic_text(&*p))),
                                    }
                                }
                                Step::Do(o) => {
                                    if let Some(w) = &mut w {
                                        res0.push(apply(w, o));
                                    }
                                }
                                Step::Drop => {
                                    w = None;
                                    res0.push(Res::Ok);
                                }
                            }
                        }
                    }
                    if let Some(h) = late.lock().unwrap().take() {
                        let _ = h.join();
                    }
                    let mut l = lb.lock().unwrap();
                    for i in pre..s[1].steps.len() {
                        exec(&s[1], &mut l, i);
                    }
                    ctx.steps(s[0].steps.len() + s[1].steps.len());
                    ctx.state(H::new().u(q as u64).u(*a as u64).u(*b as u64).u(burst as u64 + 5000).get());
                    compare(0, (hooked.inner.bytes(), res0), &want[0])?;
                    let r = std::mem::take(&mut l.res);
                    compare(1, (l.sink.bytes(), r), &want[1])
                });
            });
        }
    }
    // alone in a process of its own: whatever the process keeps between writers shows here
    let exe = std::env::current_exe().unwrap();
    let child = |what: &str| -> R<String> {
        let o = std::process::Command::new(&exe).args(["child", "c11", what]).output().map_err(|e| format!("harness: {e}"))?;
        Ok(String::from_utf8_lossy(&o.stdout).trim().to_string())
    };
    let kinds: Vec<(usize, usize, bool)> = (0..10)
        .flat_map(|k| [(k, 2, true), (k, 3, false), (k, 4, true)])
        .chain((0..10).flat_map(|k| [(k, 100, true), (k, 109, true)]))
        .collect();
    ctx.part(&format!("{name}: each script against a process of its own"), kinds.len() as u64);
    ctx.par(kinds.len(), |q| {
        ctx.case(|| format!("{name}/alone/{q}"), || {
            let (k, n, close) = kinds[q];
            ctx.steps(1);
            let (here, there) = (alone_digest(k, n, close), child(&format!("alone {k} {n} {close}"))?);
            if here != there {
                return Err(format!(
                    "the same operations give other bytes or results in a process of their own: {here} against {there} -- script {k}/{n}/{close}"
                ));
            }
            Ok(())
        });
    });
    // two streams of several pages in a process of their own, in every way they can follow each other
    let ns = STREAMS;
    let solos: Vec<Mutex<R<String>>> = (0..ns).map(|_| Mutex::new(Err(String::new()))).collect();
    ctx.par(ns, |j| *solos[j].lock().unwrap() = child(&format!("pair 0 {j} {MODES} 0")));
    ctx.part(&format!("{name}: two streams of several pages, own process"), (ns * ns * MODES * 2) as u64);
    ctx.par(ns * ns * MODES * 2, |q| {
        let (i, q1) = (q % ns, q / ns);
        let (j, q2) = (q1 % ns, q1 / ns);
        let (mode, names) = (q2 % MODES, q2 / MODES);
        if ctx.quick() && (i + j + mode) % 3 != 0 {
            return;
        }
        ctx.case(|| format!("{name}/streams/{q}"), || {
            let want = solos[j].lock().unwrap().clone()?;
            let got = child(&format!("pair {i} {j} {mode} {names}"))?;
            ctx.steps(2);
            ctx.state(H::new().u(q as u64).u(777).get());
            if want.len() != 16 || got != want {
                return Err(format!(
                    "stream {:?} alone: {want}, with stream {:?} in mode {mode}: {got}",
                    stream_kind(j),
                    stream_kind(i)
                ));
            }
            Ok(())
        });
    });
    // real files side by side in one directory
    let dir = crate::sys::Scratch::new("c11");
    let names = ["a.tsfile", "a.tsfile.tmp", "b.tsfile", "a"];
    let s = [short(1, 2, true), short(5, 2, true)];
    let want: Vec<_> = s.iter().map(solo).collect();
    let ord = interleavings(&[4, 4]);
    let np = names.len();
    ctx.part(&format!("{name}: two files in one directory"), (ord.len() * np * (np - 1)) as u64);
    ctx.par(ord.len() * np * np, |q| {
        let (o, q1) = (&ord[q % ord.len()], q / ord.len());
        let (x, y) = (q1 % np, q1 / np);
        if x == y {
            return;
        }
        ctx.case(|| format!("{name}/files/{q}"), || {
            let sub = dir.path(&format!("{q}"));
            let paths: Vec<String> = [names[x], names[y]].iter().map(|n| format!("{sub}/{n}")).collect();
            let schemas: Vec<Vec<Ser>> = s.iter().map(|s| s.sch.clone()).collect();
            let r = crate::c_io::two_files(&paths, &schemas, o, |k, i| match &s[k].steps[i] {
                Step::Do(o) => Some(o.clone()),
                _ => None,
            });
            ctx.steps(8);
            ctx.state(H::new().u(q as u64).u(444).get());
            let out: R<()> = (|| {
                r?;
                for k in 0..2 {
                    let b = std::fs::read(&paths[k]).map_err(|e| format!("{}: {e}", paths[k]))?;
                    // the index fan-out differs from the one used alone: compare the data
                    let m = solo_model(&s[k]);
                    verify::round_trip(&b, &m).map_err(|e| format!("file {k}: {e}"))?;
                    let alone = bytes_of_any(&s[k])?;
                    same(&alone, &b).map_err(|e| format!("file {k}, alone and together: {e}"))?;
                }
                let left: BTreeMap<String, u64> = std::fs::read_dir(&sub)
                    .map_err(|e| e.to_string())?
                    .flatten()
                    .map(|e| (e.file_name().to_string_lossy().to_string(), 0))
                    .collect();
                if left.len() != 2 {
                    return Err(format!("directory holds {:?}", left.keys().collect::<Vec<_>>()));
                }
                Ok(())
            })();
            let _ = std::fs::remove_dir_all(&sub);
            out
        });
    });
    let _ = want;
}

/// Preemption at shared memory (see `race.rs`)
fn races(ctx: &Ctx, name: &str) {
    let (objects, flag) = match race::statics() {
        Ok(x) => x,
        Err(e) => return ctx.note("writable static objects", e),
    };
    ctx.note(&format!("writable static objects of the crate ({name})"), objects.len());
    if objects.is_empty() {
        return;
    }
    let kinds: Vec<(usize, usize, usize)> = (0..10).flat_map(|a| [(a, (a + 1) % 10, 0), (a, (a * 3 + 4) % 10, 2)]).collect();
    let limit = ctx.pick(2_000_000, 8_000_000);
    let most = ctx.pick(200, 2000);
    // where the first thread changes them
    let found: Vec<Mutex<Vec<race::Hold>>> = kinds.iter().map(|_| Mutex::new(vec![])).collect();
    let args = |k: usize| [kinds[k].0, kinds[k].1, kinds[k].2].map(|x| x.to_string());
    ctx.par(kinds.len(), |k| {
        if ctx.stop() {
            return;
        }
        match race::run(&args(k), &objects, flag, None, limit) {
            Ok(r) => *found[k].lock().unwrap() = race::positions(&r.changes),
            Err(e) => ctx.note("races", e),
        }
    });
    let at: Vec<(usize, race::Hold)> = found
        .iter()
        .enumerate()
        .flat_map(|(k, f)| f.lock().unwrap().iter().take(most).map(|n| (k, *n)).collect::<Vec<_>>())
        .collect();
    ctx.part(&format!("{name}: preemption at every change of a static object"), at.len() as u64);
    ctx.par(at.len(), |q| {
        let (k, n) = at[q];
        ctx.case(|| format!("{name}/race/{k}/{}/{}", n.0, n.1), || {
            ctx.steps(1);
            ctx.state(H::new().u(k as u64).u(n.0 as u64).u(n.1 as u64).u(888).get());
            let mut bad = vec![];
            for _ in 0..3 {
                match race::run(&args(k), &objects, flag, Some(n), limit) {
                    Ok(r) if r.hung => bad.push("the two writers wait for each other".to_string()),
                    Ok(r) if r.code == Some(0) && r.stdout.trim() == "ok" => {}
                    Ok(r) => bad.push(format!("{} (exit {:?})", r.stdout.trim(), r.code)),
                    Err(e) => ctx.note("races", e),
                }
                if bad.is_empty() || bad.len() == 2 {
                    break;
                }
            }
            if bad.len() == 2 {
                return Err(format!(
                    "{} -- the first writer (script {}) held {} instructions after change {} of a shared object while the second ({}, {} steps done) runs; shared: {:?}",
                    bad[0],
                    kinds[k].0,
                    n.1,
                    n.0,
                    kinds[k].1,
                    kinds[k].2,
                    objects.iter().map(|o| &o.0).collect::<Vec<_>>()
                ));
            }
            Ok(())
        });
    });
}

/// Two writers on a thread each, at their marks under the control of `race::run`
pub fn race_child(a: usize, b: usize, pre: usize) -> String {
    let s = Arc::new([uneven(a), uneven(b)]);
    let mut lb = fresh();
    (0..pre).for_each(|i| exec(&s[1], &mut lb, i));
    let (s0, s1) = (s.clone(), s.clone());
    let second = std::thread::spawn(move || {
        crate::sys::mark(race::B_READY);
        for i in pre..s1[1].steps.len() {
            exec(&s1[1], &mut lb, i);
        }
        crate::sys::mark(race::B_DONE);
        lb
    });
    let first = std::thread::spawn(move || {
        let mut la = fresh();
        crate::sys::mark(race::A_READY);
        for i in 0..s0[0].steps.len() {
            exec(&s0[0], &mut la, i);
        }
        race::first_is_through();
        la
    });
    let (Ok(mut la), Ok(mut lb)) = (first.join(), second.join()) else {
        return "a writer's thread panicked".into();
    };
    let got = [(la.sink.take(), std::mem::take(&mut la.res)), (lb.sink.take(), std::mem::take(&mut lb.res))];
    for (k, g) in got.into_iter().enumerate() {
        // the expectation comes from the writer alone, afterwards
        if let Err(e) = compare(k, g, &solo(&s[k])) {
            return e;
        }
    }
    "ok".into()
}

fn solo_model(s: &Script) -> Model {
    let mut m = Model::new(&s.sch);
    for st in &s.steps {
        if let Step::Do(o) = st {
            m.step(o);
        }
    }
    m
}

fn bytes_of_any(s: &Script) -> R<Vec<u8>> {
    let sink = Sink::new();
    let mut w = open(build_schema(&s.sch), &sink, None).map_err(|r| format!("{r:?}"))?;
    for st in &s.steps {
        if let Step::Do(o) = st {
            let r = apply(&mut w, o);
            if !r.is_ok() {
                return Err(format!("{o:?}: {r:?}"));
            }
        }
    }
    Ok(sink.take())
}

const STREAMS: usize = 20;
/// one after the other; alternating; the first left open half-way; the first dropped half-way;
/// the first started before and finished after the second
const MODES: usize = 5;

fn stream_kind(k: usize) -> ((Ty, Enc, Comp), bool) {
    let c = configs();
    (c[k % c.len()], k / c.len() % 2 == 1)
}

fn stream(k: usize, other: bool) -> (Vec<Ser>, Vec<Op>) {
    let ((ty, enc, comp), wide) = stream_kind(k);
    let s = if other { ser("e", "u", ty, enc, comp) } else { ser("d", "s", ty, enc, comp) };
    let n: u64 = if cfg!(tsfile_verif_small) { 60 } else { 20_000 };
    let mut t = 0;
    let ops = (0..n)
        .map(|i| {
            let x = lcg(i * 3 + k as u64);
            t += 1 + if wide { x >> 22 } else { x >> 50 } as i64;
            let v = lcg(i ^ 0x77);
            let v = match ty {
                Ty::I32 => Val::I(if wide { v as i32 } else { (v >> 50) as i32 }),
                Ty::I64 => Val::L(if wide { v as i64 } else { (v >> 44) as i64 }),
                Ty::F32 => Val::F(v as u32 & 0xbfff_ffff),
            };
            Op::W(s.dev, s.sen, t, v)
        })
        .collect();
    (vec![s], ops)
}

fn alone_digest(k: usize, n: usize, close: bool) -> String {
    let s = if n >= 100 { script(k, n - 100, close) } else { short(k, n, close) };
    let (b, r) = solo(&s);
    format!("{:016x}", H::new().b(&b).s(&format!("{r:?}")).get())
}

/// What a child process of C11 prints
pub fn c11_child(what: &str) -> String {
    let a: Vec<&str> = what.split(' ').collect();
    let num = |i: usize| a[i].parse::<usize>().unwrap();
    if a[0] == "alone" {
        return alone_digest(num(1), num(2), a[3] == "true");
    }
    let (i, j, mode, names) = (num(1), num(2), num(3), num(4) == 1);
    let mut v = vec![];
    for (k, other) in [(i, names), (j, false)] {
        let (sch, ops) = stream(k, other);
        let mut steps = vec![Step::Create];
        steps.extend(ops.into_iter().map(Step::Do));
        steps.push(Step::Do(Op::Close));
        steps.push(Step::Drop);
        v.push((Script { sch, steps }, fresh()));
    }
    let (mut second, mut first) = (v.pop().unwrap(), v.pop().unwrap());
    let (n, m) = (first.0.steps.len(), second.0.steps.len());
    let mut f = |i: usize| exec(&first.0, &mut first.1, i);
    let mut s = |i: usize| exec(&second.0, &mut second.1, i);
    match mode {
        0 => {
            (0..n).for_each(&mut f);
            (0..m).for_each(&mut s);
        }
        1 => {
            for i in 0..n.max(m) {
                if i < n {
                    f(i);
                }
                if i < m {
                    s(i);
                }
            }
        }
        2 => {
            (0..n * 2 / 3).for_each(&mut f);
            (0..m).for_each(&mut s);
        }
        3 => {
            (0..n * 2 / 3).for_each(&mut f);
            f(n - 1);
            (0..m).for_each(&mut s);
        }
        4 => {
            (0..n / 2).for_each(&mut f);
            (0..m - 2).for_each(&mut s);
            (n / 2..n).for_each(&mut f);
            (m - 2..m).for_each(&mut s);
        }
        _ => (0..m).for_each(&mut s),
    }
    let (b, r) = (second.1.sink.take(), &second.1.res);
    if r.iter().any(|r| !r.is_ok()) {
        return format!("refused {:?}", r.iter().find(|r| !r.is_ok()));
    }
    format!("{:016x}", H::new().b(&b).get())
}
