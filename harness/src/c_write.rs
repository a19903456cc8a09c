//! C01, C02, C03, C04, C06, C08: the write path, over histories, values and configurations.
use crate::ctx::Ctx;
use crate::drive::*;
use crate::hist::*;
use crate::model::*;
use crate::oracle::*;
use crate::verify;

fn w(d: Name, s: Name) -> A {
    A::W(d, s, T::Plus(1), V::Auto)
}

fn shape(ctx: &Ctx, b: &[u8]) {
    if let Ok(d) = scan(b) {
        let pages = d.chunks().map(|c| c.1.pages.len()).max().unwrap_or(0);
        let mut per: std::collections::BTreeMap<&str, usize> = Default::default();
        for g in &d.groups {
            *per.entry(&g.device).or_default() += 1;
        }
        let groups = per.values().max().copied().unwrap_or(0);
        ctx.outcome(&format!("pages<={} flushes={}", pages.min(9), groups.min(9)));
    }
}

/// Lengths at which a series' chunk changes shape under the real page limits: found by writing a
/// long series and reading where its pages end.
pub fn page_ends(s: Ser, pat: Pat, n: usize) -> Result<Vec<usize>, String> {
    let ops = series_ops(s, pat, n);
    let b = file_of(&[s], &ops)?;
    let d = scan(&b)?;
    let mut at = 0;
    let mut v = vec![];
    for (_, c) in d.chunks() {
        for p in &c.pages {
            at += p.pts.len();
            v.push(at);
        }
    }
    v.pop();
    Ok(v)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pat {
    Const,
    Ramp,
    Noise,
    Alt,
    /// nothing a compressor could use, also in the timestamps
    Wild,
}
pub const PATS: [Pat; 5] = [Pat::Const, Pat::Ramp, Pat::Noise, Pat::Alt, Pat::Wild];

pub fn lcg(x: u64) -> u64 {
    let mut z = x.wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn pat_val(ty: Ty, p: Pat, i: usize) -> Val {
    let k: u64 = match p {
        Pat::Const => 42,
        Pat::Ramp => i as u64,
        Pat::Noise | Pat::Wild => lcg(i as u64),
        Pat::Alt => {
            if i % 2 == 0 {
                i64::MAX as u64
            } else {
                i64::MIN as u64
            }
        }
    };
    match (ty, p) {
        (Ty::I64, _) => Val::L(k as i64),
        (Ty::I32, Pat::Alt) => Val::I(if i % 2 == 0 { i32::MAX } else { i32::MIN }),
        (Ty::I32, _) => Val::I(k as i32),
        (Ty::F32, Pat::Noise | Pat::Wild) => Val::F((k as u32) & 0xbfff_ffff),
        (Ty::F32, Pat::Alt) => Val::f(if i % 2 == 0 { f32::MAX } else { f32::MIN }),
        (Ty::F32, _) => Val::f(k as f32),
    }
}

pub fn pat_time(p: Pat, i: usize) -> i64 {
    match p {
        Pat::Const | Pat::Ramp => 1_600_000_000_000 + i as i64,
        Pat::Noise => (i as i64) * 1000 + (lcg(i as u64 ^ 0xabc) % 900) as i64,
        Pat::Alt => (i as i64 / 2) * 10_000_000_000 + (i as i64 % 2),
        Pat::Wild => (1 << 60) + ((i as i64) << 42) + (lcg(i as u64 ^ 0x9d) >> 22) as i64,
    }
}

pub fn series_ops(s: Ser, p: Pat, n: usize) -> Vec<Op> {
    (0..n).map(|i| Op::W(s.dev, s.sen, pat_time(p, i), pat_val(s.ty, p, i))).collect()
}

// ---------------------------------------------------------------- C01

pub fn c01(ctx: &Ctx) {
    if ctx.small {
        let depth = ctx.pick(7, 9);
        for i in 0..10 {
            let sch = mixed(i);
            let alpha = [
                w("d1", "s1"),
                w("d1", "s2"),
                w("d2", "s1"),
                A::M("d1", T::Plus(1), vec![("s1", V::Auto), ("s2", V::Auto)]),
                A::W("d2", "s1", T::Plus(1000), V::Auto),
            ];
            all(ctx, &format!("mixed{i}"), &sch, &alpha, depth, |c| {
                let b = conform(c, &Sink::new(), None)?;
                if c.ops.len() == depth && c.model.fingerprint() % 64 == 0 {
                    shape(ctx, &b);
                }
                verify::round_trip(&b, &c.model)
            });
        }
        // bursts: long runs of one series between writes of others, several flushes
        let sizes = [1usize, 2, 3, 5, 8, 13, 30];
        for i in 0..10 {
            let sch = mixed(i);
            let mut alpha = vec![];
            for n in sizes {
                alpha.push(A::Burst("d1", "s1", n));
                alpha.push(A::Burst("d2", "s1", n));
            }
            alpha.push(A::M("d1", T::Plus(1), vec![("s2", V::Auto), ("s1", V::Auto)]));
            all(ctx, &format!("burst{i}"), &sch, &alpha, ctx.pick(3, 4), |c| {
                let b = conform(c, &Sink::new(), None)?;
                if c.model.fingerprint() % 64 == 0 {
                    shape(ctx, &b);
                }
                verify::round_trip(&b, &c.model)
            });
        }
        flush_masks(ctx, |b, m, _| verify::round_trip(b, m));
        crate::high::far_offsets(ctx, |b, m, _| verify::round_trip(b, m));
        many_flushes(ctx, |b, m, _| verify::round_trip(b, m));
        // every length of a single series
        let cfg = configs();
        let max = ctx.pick(260, 600);
        ctx.par(cfg.len() * max, |k| {
            let (ty, enc, comp) = cfg[k % cfg.len()];
            let n = k / cfg.len();
            ctx.case(|| format!("length/{k}"), || {
                let s = ser("root.sg.d", "s", ty, enc, comp);
                let mut c = Case::new(std::slice::from_ref(&s));
                for _ in 0..n {
                    c.push(&w("root.sg.d", "s"));
                }
                ctx.steps(n);
                ctx.state(c.model.fingerprint());
                let b = conform(&c, &Sink::new(), None)?;
                verify::round_trip(&b, &c.model).map_err(|e| format!("{n} points of {s:?}: {e}"))
            });
        });
        ctx.part("single series, every length", (cfg.len() * max) as u64);
        columns(ctx, |b, m| verify::round_trip(b, m));
    } else {
        columns(ctx, |b, m| verify::round_trip(b, m));
        real_lengths(ctx, "pages", ctx.pick(24_000, 120_000), |b, m| verify::round_trip(b, m));
        long_streams(ctx, "pages", |b, m| verify::round_trip(b, m));
        name_pairs(ctx, |b, m| verify::round_trip(b, m));
        // chunk-group flush under the real 128 MiB limit
        big_flush(ctx, |b, m| {
            let d = scan(b)?;
            if d.groups.len() < 2 {
                return Err("no automatic flush in a stream beyond 128 MiB".into());
            }
            verify::round_trip(b, m)
        });
    }
}

/// Real limits: for every configuration and value pattern, the lengths around every page end.
pub fn real_lengths(ctx: &Ctx, name: &str, n: usize, f: impl Fn(&[u8], &Model) -> R<()> + Sync) {
    let cfg = configs();
    let jobs: Vec<(usize, Pat)> = (0..cfg.len()).flat_map(|i| PATS.map(|p| (i, p))).collect();
    ctx.par(jobs.len(), |j| {
        let (i, pat) = jobs[j];
        let (ty, enc, comp) = cfg[i];
        let s = ser("root.sg.d1", "s1", ty, enc, comp);
        let ends = match std::panic::catch_unwind(|| page_ends(s, pat, n)) {
            Ok(Ok(e)) => e,
            e => {
                ctx.violation(
                    format!("{name}/{i}/{pat:?}/ends"),
                    match e {
                        Ok(Err(m)) => m,
                        _ => "panic".into(),
                    },
                );
                return;
            }
        };
        let mut lens: Vec<usize> = vec![0, 1, 2, 60, 100, 127, 128, 129, 130, 257, 258, 259, 1500, n];
        for e in &ends {
            for x in [e - 1, *e, e + 1] {
                lens.push(x);
            }
        }
        lens.sort();
        lens.dedup();
        ctx.part(&format!("{name}: lengths around page ends, real limits"), lens.len() as u64);
        for len in lens.into_iter().filter(|l| *l <= n) {
            if ctx.stop() {
                return;
            }
            ctx.case(|| format!("{name}/{i}/{pat:?}/{len}"), || {
                let ops = series_ops(s, pat, len);
                let mut m = Model::new(&[s]);
                for o in &ops {
                    if !m.step(o).is_empty() {
                        return Err("harness: pattern not increasing".into());
                    }
                }
                ctx.steps(len);
                ctx.state(m.fingerprint());
                let b = file_of(&[s], &ops)?;
                if len == n {
                    shape(ctx, &b);
                }
                f(&b, &m).map_err(|e| format!("{len} points ({pat:?}) of {s:?}: {e}"))
            });
        }
    });
}

/// Pages and chunks of more points than 16 bits count: steady streams, where a page of
/// differences closes only after more than 100 000 points.
pub fn long_streams(ctx: &Ctx, name: &str, f: impl Fn(&[u8], &Model) -> R<()> + Sync) {
    let cfg = configs();
    let n = ctx.pick(360_000, 1_200_000);
    let jobs: Vec<(usize, Pat)> = (0..cfg.len()).flat_map(|i| [(i, Pat::Const), (i, Pat::Ramp)]).collect();
    ctx.par(jobs.len(), |j| {
        let (i, pat) = jobs[j];
        let (ty, enc, comp) = cfg[i];
        let s = ser("root.sg.d1", "s1", ty, enc, comp);
        let mut lens = vec![65_535, 65_536, 65_537, n];
        if enc == Enc::Diff {
            match std::panic::catch_unwind(|| page_ends(s, pat, n)) {
                Ok(Ok(e)) => lens.extend(e.into_iter().flat_map(|e| [e - 1, e, e + 1])),
                e => {
                    let m = match e {
                        Ok(Err(m)) => m,
                        _ => "panic".into(),
                    };
                    ctx.violation(format!("{name}/long/{i}/{pat:?}/ends"), m);
                    return;
                }
            }
        }
        ctx.part(&format!("{name}: steady streams past 65 536 points"), lens.len() as u64);
        for len in lens {
            if ctx.stop() {
                return;
            }
            ctx.case(|| format!("{name}/long/{i}/{pat:?}/{len}"), || {
                let ops = series_ops(s, pat, len);
                let mut m = Model::new(&[s]);
                for o in &ops {
                    if !m.step(o).is_empty() {
                        return Err("harness: pattern not increasing".into());
                    }
                }
                ctx.steps(len);
                ctx.state(m.fingerprint());
                let b = file_of(&[s], &ops)?;
                f(&b, &m).map_err(|e| format!("{len} points ({pat:?}) of {s:?}: {e}"))
            });
        }
    });
}

/// Which series have data in which chunk group, exhaustively: 3 (4) automatic flushes over four
/// series on two devices, every non-empty subset of the series written before each of them.
pub fn flush_masks(ctx: &Ctx, f: impl Fn(&[u8], &Model, usize) -> R<()> + Sync) {
    if !ctx.small {
        return;
    }
    let groups = ctx.pick(3, 4);
    let total = 15usize.pow(groups as u32);
    ctx.part("series written before each flush", total as u64);
    let cfg = configs();
    ctx.par(total, |q| {
        ctx.case(|| format!("masks/{q}"), || {
            let deg = 2 + q % 3;
            let sch: Vec<Ser> = [("d1", "s1"), ("d1", "s2"), ("d2", "s1"), ("d2", "s2")]
                .iter()
                .enumerate()
                .map(|(i, (d, s))| {
                    let (t, e, c) = cfg[(q / 7 + i * 3) % cfg.len()];
                    ser(d, s, t, e, c)
                })
                .collect();
            let sink = Sink::new();
            let mut w = open(build_schema(&sch), &sink, Some(deg)).map_err(|r| format!("{r:?}"))?;
            let mut m = Model::new(&sch);
            let mut k = 0;
            let mut left = q;
            let mut masks = vec![];
            for _ in 0..groups {
                let mask = left % 15 + 1;
                masks.push(mask);
                left /= 15;
                let before = sink.len();
                let mut rounds = 0;
                while sink.len() == before && rounds < 60 {
                    for (i, s) in sch.iter().enumerate() {
                        if mask >> i & 1 == 1 {
                            let o = Op::W(s.dev, s.sen, k, Val::small(s.ty, k * 31 % 17 - 5));
                            m.step(&o);
                            let r = apply(&mut w, &o);
                            if !r.is_ok() {
                                return Err(format!("{}: {r:?}", show_ops(&[o])));
                            }
                        }
                    }
                    k += 1;
                    rounds += 1;
                }
            }
            m.step(&Op::Close);
            let r = apply(&mut w, &Op::Close);
            if !r.is_ok() {
                return Err(format!("close: {r:?}"));
            }
            ctx.steps(k as usize);
            ctx.state(m.fingerprint());
            f(&sink.take(), &m, deg).map_err(|e| format!("{e} -- subsets {masks:?} of {sch:?} before the flushes"))
        });
    });
}

/// Every number of automatic flushes of one series (the chunks its metadata lists) up to a bound,
/// and larger ones, past lists of 64 KiB; a neighbour has data in few of them.
pub fn many_flushes(ctx: &Ctx, f: impl Fn(&[u8], &Model, usize) -> R<()> + Sync) {
    if !ctx.small {
        return;
    }
    let mut counts: Vec<usize> = (1..=ctx.pick(130, 600)).collect();
    counts.extend((150..ctx.pick(700, 2000)).step_by(ctx.pick(37, 11)));
    counts.extend([1100, 1400, 2100]);
    let cfg = configs();
    ctx.part("numbers of flushes", (counts.len() * cfg.len()) as u64);
    ctx.par(counts.len() * cfg.len(), |q| {
        let (n, i) = (counts[counts.len() - 1 - q / cfg.len()], q % cfg.len());
        ctx.case(|| format!("flushes/{i}/{n}"), || {
            let (a, b) = (cfg[i], cfg[(i * 3 + n) % cfg.len()]);
            let sch = [ser("d1", "s1", a.0, a.1, a.2), ser("d1", "s2", b.0, b.1, b.2), ser("d2", "s1", b.0, b.1, b.2)];
            let sink = Sink::new();
            let mut w = open(build_schema(&sch), &sink, None).map_err(|r| format!("{r:?}"))?;
            let mut m = Model::new(&sch);
            let mut k = 0i64;
            for j in 0..n {
                let before = sink.len();
                let mut rounds = 0;
                while sink.len() == before && rounds < 200 {
                    let s = match (j % 41, rounds) {
                        (7, 0) => &sch[1],
                        (19, 1) => &sch[2],
                        _ => &sch[0],
                    };
                    let o = Op::W(s.dev, s.sen, k, Val::small(s.ty, k * 31 % 1013 - 500));
                    m.step(&o);
                    let r = apply(&mut w, &o);
                    if !r.is_ok() {
                        return Err(format!("{}: {r:?}", show_ops(&[o])));
                    }
                    k += 1;
                    rounds += 1;
                }
            }
            m.step(&Op::Close);
            let r = apply(&mut w, &Op::Close);
            if !r.is_ok() {
                return Err(format!("close: {r:?}"));
            }
            ctx.steps(k as usize);
            ctx.state(m.fingerprint());
            f(&sink.take(), &m, 256).map_err(|e| format!("{e} -- {n} flushes of {sch:?}"))
        });
    });
}

/// A stream that exceeds 128 MiB of buffered data: two series of different kinds.
pub fn big_flush(ctx: &Ctx, f: impl Fn(&[u8], &Model) -> R<()> + Sync) {
    big_flush_at(ctx, |_, _| Ok(()), f)
}

/// `at` sees the bytes and the points accepted right after the call that flushed.
pub fn big_flush_at(
    ctx: &Ctx,
    at: impl Fn(&[u8], &Model) -> R<()> + Sync,
    f: impl Fn(&[u8], &Model) -> R<()> + Sync,
) {
    let kinds: &[(Ty, Enc, Comp)] = &[
        (Ty::I64, Enc::Plain, Comp::Raw),
        (Ty::F32, Enc::Plain, Comp::Raw),
        (Ty::I64, Enc::Diff, Comp::Raw),
    ];
    let n = ctx.pick(1, kinds.len());
    ctx.part("streams beyond 128 MiB", n as u64);
    for (i, (ty, enc, comp)) in kinds.iter().take(n).enumerate() {
        ctx.case(|| format!("bigflush/{i}"), || {
            let a = ser("d1", "s1", *ty, *enc, *comp);
            let b2 = ser("d2", "s2", Ty::I32, Enc::Plain, Comp::Raw);
            let sch = [a, b2];
            let sink = Sink::new();
            let mut wr = open(build_schema(&sch), &sink, None).map_err(|r| format!("{r:?}"))?;
            let mut m = Model::new(&sch);
            let mut pa: Pts = vec![];
            let mut pb: Pts = vec![];
            let mut k = 0usize;
            let mut flushed_at = None;
            let mut extra = 0;
            loop {
                let t = (k as i64) * 1000 + (lcg(k as u64 ^ 0xabc) % 900) as i64;
                let v = pat_val(*ty, Pat::Noise, k);
                let r = res(wr.write("d1", "s1", t, v.api()));
                if !r.is_ok() {
                    return Err(format!("write {k}: {r:?}"));
                }
                pa.push((t, v));
                if k % 50 == 0 {
                    let v = pat_val(Ty::I32, Pat::Noise, k);
                    let r = res(wr.write("d2", "s2", t, v.api()));
                    if !r.is_ok() {
                        return Err(format!("write {k} of the second series: {r:?}"));
                    }
                    pb.push((t, v));
                }
                if flushed_at.is_none() && sink.len() > 1 << 20 {
                    flushed_at = Some(k);
                    m.pts.insert(("d1", "s1"), pa);
                    m.pts.insert(("d2", "s2"), pb);
                    at(&sink.bytes(), &m)?;
                    pa = m.pts.remove(&("d1", "s1")).unwrap_or_default();
                    pb = m.pts.remove(&("d2", "s2")).unwrap_or_default();
                    // the last accepted point must still be known
                    let r = res(wr.write("d1", "s1", t, v.api()));
                    if r != Res::Order {
                        return Err(format!("after the automatic flush a repeated timestamp gives {r:?}"));
                    }
                }
                if flushed_at.is_some() {
                    extra += 1;
                    if extra > 20_000 {
                        break;
                    }
                }
                k += 1;
                if k > 60_000_000 {
                    return Err("60 million points without a flush".into());
                }
            }
            ctx.steps(k);
            m.pts.insert(("d1", "s1"), pa);
            m.pts.insert(("d2", "s2"), pb);
            let r = apply(&mut wr, &Op::Close);
            if !r.is_ok() {
                return Err(format!("close: {r:?}"));
            }
            let b = sink.take();
            ctx.note(&format!("bigflush{i}"), format!("flush after {flushed_at:?} points, file {} bytes", b.len()));
            f(&b, &m)
        });
    }
}

/// Every pair (device name, sensor name) of `names()`, beside the swapped pair and a plain series
pub fn name_pairs(ctx: &Ctx, f: impl Fn(&[u8], &Model) -> R<()> + Sync) {
    let names = names();
    let n = names.len();
    let v = if ctx.small { "small" } else { "real" };
    ctx.part(&format!("{v}: names (device x sensor)"), (n * n) as u64);
    ctx.par(n * n, |k| {
        let (d, s) = (names[k % n], names[k / n]);
        ctx.case(|| format!("{v}/names/{}/{}", k % n, k / n), || {
            let mut sch = vec![ser(d, s, Ty::I64, Enc::Diff, Comp::Raw)];
            if d != s {
                sch.push(ser(s, d, Ty::I32, Enc::Plain, Comp::Snappy));
            }
            if d != "m" && s != "m" {
                sch.push(ser("m", s, Ty::F32, Enc::Plain, Comp::Raw));
            }
            let mut c = Case::new(&sch);
            for q in 0..7 {
                let x = sch[q % sch.len()];
                c.push(&w(x.dev, x.sen));
            }
            ctx.steps(7);
            ctx.state(c.model.fingerprint());
            let b = conform(&c, &Sink::new(), None)?;
            f(&b, &c.model).map_err(|e| format!("{e} -- names {d:?}, {s:?}"))
        });
    });
}

// ---------------------------------------------------------------- C02

pub fn c02(ctx: &Ctx) {
    let check = |c: &Case| -> Result<(), String> {
        let b = conform(c, &Sink::new(), None)?;
        let refused = c.why.iter().filter(|w| !w.is_empty()).count();
        if c.model.fingerprint() % 256 == 0 {
            ctx.outcome(&format!("refused {} of {}", refused, c.ops.len()));
        }
        let d = scan(&b)?;
        verify::data_matches(&d, &c.model)
    };
    if ctx.small {
        for i in 0..3 {
            let sch = mixed(i * 2);
            // relative timestamps: repeat, step back, step on; single and multi-point
            let alpha = [
                A::W("d1", "s1", T::Plus(1), V::Auto),
                A::W("d1", "s1", T::Plus(0), V::Auto),
                A::W("d1", "s2", T::Plus(2), V::Auto),
                A::W("d2", "s1", T::Plus(1), V::Auto),
                A::W("d1", "s1", T::Plus(-1), V::Auto),
                A::M("d1", T::Plus(0), vec![("s2", V::Auto), ("s1", V::Auto)]),
                A::M("d1", T::Plus(1), vec![("s1", V::Auto), ("s2", V::Auto)]),
            ];
            // refused writes do not count: wrong type, unknown names, a row that breaks off
            let alpha3 = [
                A::W("d1", "s1", T::Plus(1), V::Auto),
                A::W("d1", "s1", T::Plus(0), V::Auto),
                A::M("d1", T::Plus(1), vec![("s1", V::Auto), ("s1", V::Auto)]),
                A::M("d1", T::Plus(1), vec![("s2", V::Auto), ("s1", V::Auto), ("s2", V::Auto)]),
                A::W("d1", "s2", T::Plus(1), V::Auto),
                A::W("d1", "s1", T::Plus(3), V::Is(Val::D(0))),
                A::W("d1", "zz", T::Plus(9), V::Auto),
                A::W("zz", "s1", T::Plus(9), V::Auto),
                A::M("d1", T::Plus(2), vec![("s2", V::Auto), ("s1", V::Is(Val::D(0)))]),
                A::M("d1", T::Plus(2), vec![("s1", V::Auto), ("zz", V::Auto), ("s2", V::Auto)]),
            ];
            all(ctx, &format!("refused{i}"), &sch, &alpha3, ctx.pick(5, 7), check);
            all(ctx, &format!("rel{i}"), &sch, &alpha, ctx.pick(6, 8), check);
            // after bursts: flushes and page seals lie between the two writes being compared
            let mut alpha2 = alpha.to_vec();
            alpha2.push(A::Burst("d1", "s1", 3));
            alpha2.push(A::Burst("d2", "s1", 6));
            alpha2.push(A::Burst("d1", "s2", 12));
            all(ctx, &format!("burst{i}"), &sch, &alpha2, ctx.pick(5, 6), check);
        }
        // absolute boundary timestamps, all sequences
        let bt = [0, 1, -1, i64::MAX, i64::MAX - 1, i64::MIN];
        for (k, (ty, enc, comp)) in configs().into_iter().enumerate() {
            let sch = [ser("d", "s", ty, enc, comp), ser("d", "t", Ty::I64, Enc::Plain, Comp::Raw)];
            let mut alpha: Vec<A> = bt.iter().map(|t| A::W("d", "s", T::Abs(*t), V::Auto)).collect();
            alpha.push(A::Burst("d", "t", 9));
            all(ctx, &format!("abs{k}"), &sch, &alpha, ctx.pick(4, 6), check);
        }
        // the same series written after every number of accepted points of itself and of a neighbour
        let max = ctx.pick(40, 90);
        ctx.part("repeat after (n, m) points", (max * max) as u64);
        ctx.par(max * max, |k| {
            let (n, m) = (k % max, k / max);
            ctx.case(|| format!("after/{n}/{m}"), || {
                let sch = mixed(n % 10);
                let mut c = Case::new(&sch);
                c.push(&A::Burst("d1", "s1", n));
                c.push(&A::Burst("d2", "s1", m));
                for t in [T::Plus(0), T::Plus(-1), T::Plus(1), T::Plus(0)] {
                    c.push(&A::W("d1", "s1", t, V::Auto));
                    c.push(&A::W("d2", "s1", t, V::Auto));
                    c.push(&A::W("d1", "s2", t, V::Auto));
                }
                ctx.steps(c.ops.len());
                ctx.state(c.model.fingerprint());
                check(&c).map_err(|e| format!("{e} -- {n} points of d1.s1, {m} of d2.s1, then repeats; {sch:?}"))
            });
        });
    } else {
        // real limits: repeats around every page end, and after a 128 MiB flush
        let cfg = configs();
        ctx.par(cfg.len(), |i| {
            let (ty, enc, comp) = cfg[i];
            let s = ser("d", "s", ty, enc, comp);
            ctx.case(|| format!("real/{i}"), || {
                let n = 20_000;
                let sink = Sink::new();
                let mut wr = open(build_schema(&[s]), &sink, None).map_err(|r| format!("{r:?}"))?;
                for k in 0..n {
                    let t = pat_time(Pat::Noise, k);
                    let v = pat_val(ty, Pat::Noise, k);
                    let r = res(wr.write("d", "s", t, v.api()));
                    if !r.is_ok() {
                        return Err(format!("point {k}: {r:?}"));
                    }
                    let r = res(wr.write("d", "s", t, v.api()));
                    if r != Res::Order {
                        return Err(format!("repeat of point {k}: {r:?}"));
                    }
                }
                ctx.steps(2 * n);
                Ok(())
            });
        });
        ctx.part("repeat after every point, real limits", cfg.len() as u64);
        big_flush(ctx, |_, _| Ok(()));
    }
}

// ---------------------------------------------------------------- C03

/// The history without its refused operations; None if a multi-point write was refused part-way.
fn without_refused(c: &Case) -> Option<Vec<Op>> {
    let mut m = Model::new(c.sch);
    let mut out = vec![];
    for o in &c.ops {
        let before: usize = m.pts.values().map(|p| p.len()).sum();
        let r = m.step(o);
        let after: usize = m.pts.values().map(|p| p.len()).sum();
        if r.is_empty() {
            out.push(o.clone());
        } else if after != before {
            return None;
        }
    }
    Some(out)
}

pub fn c03(ctx: &Ctx) {
    let check = |c: &Case| -> Result<(), String> {
        let b = conform(c, &Sink::new(), None)?;
        let d = scan(&b)?;
        verify::data_matches(&d, &c.model)?;
        if let Some(ops) = without_refused(c) {
            let clean = file_of(c.sch, &ops)?;
            if clean != b {
                let at = clean.iter().zip(&b).take_while(|(x, y)| x == y).count();
                return Err(format!("file differs at byte {at} from the one without the refused writes"));
            }
        } else {
            // refused part-way: still the same file up to where an automatic flush falls
            verify::round_trip(&b, &c.model)?;
        }
        if c.model.fingerprint() % 64 == 0 {
            ctx.outcome(&format!("{:?}", c.why.iter().flatten().map(|w| format!("{w:?}")).collect::<std::collections::BTreeSet<_>>()));
        }
        Ok(())
    };
    let sch = vec![
        ser("d1", "s1", Ty::I64, Enc::Diff, Comp::Raw),
        ser("d1", "s2", Ty::F32, Enc::Plain, Comp::Raw),
        ser("d1", "f", Ty::F32, Enc::Diff, Comp::Raw),
        ser("d2", "s1", Ty::I32, Enc::Diff, Comp::Snappy),
        ser("d2", "s3", Ty::I32, Enc::Plain, Comp::Raw),
    ];
    let l = V::Is(Val::L(7));
    let i = V::Is(Val::I(7));
    let f = V::Is(Val::f(7.0));
    let dd = V::Is(Val::D(0x3ff0000000000000));
    let one = |s: Name, t: T, v: V| A::W("d1", s, t, v);
    let mut alpha: Vec<A> = vec![
        one("s1", T::Plus(1), V::Auto),
        A::W("d2", "s1", T::Plus(1), V::Auto),
        one("s1", T::Plus(1), i),
        one("s1", T::Plus(0), V::Auto),
        one("zz", T::Plus(1), l),
        A::W("dx", "s1", T::Plus(1), l),
        one("f", T::Plus(1), f),
        A::W("d2", "s1", T::Plus(1), l),
        A::W("d2", "s3", T::Plus(1), dd),
        // refused at the first, second, third point
        A::M("d1", T::Plus(1), vec![("s1", i), ("s2", V::Auto)]),
        A::M("d1", T::Plus(1), vec![("s1", V::Auto), ("s2", l)]),
        A::M("d1", T::Plus(1), vec![("s2", V::Auto), ("s1", V::Auto), ("zz", l)]),
        A::M("d1", T::Plus(1), vec![("s1", V::Auto), ("s1", V::Auto)]),
        A::M("dx", T::Plus(1), vec![("s1", l)]),
        A::M("d1", T::Plus(1), vec![("s1", V::Auto), ("s2", V::Auto)]),
    ];
    let name = if ctx.small { "small" } else { "real" };
    all(ctx, &format!("{name}/all"), &sch, &alpha, ctx.pick(4, 5), check);
    // every kind of value against every kind of series, alone and after valid points, single and multi
    let vals = [Val::I(1), Val::L(1), Val::f(1.0), Val::D(1)];
    let mut grid = vec![];
    for s in &sch {
        for v in vals {
            grid.push(A::W(s.dev, s.sen, T::Plus(1), V::Is(v)));
            grid.push(A::M(s.dev, T::Plus(1), vec![(s.sen, V::Is(v))]));
        }
    }
    all(ctx, &format!("{name}/types"), &sch, &grid, 2, check);
    if ctx.small {
        // long prefix so that flushes and page seals surround the refused writes
        let pres: Vec<Vec<A>> = vec![
            vec![A::Burst("d1", "s1", 3)],
            vec![A::Burst("d1", "s1", 7), A::Burst("d2", "s1", 2)],
            vec![A::Burst("d2", "s3", 11)],
        ];
        alpha.push(A::Burst("d2", "s3", 4));
        for (k, p) in pres.iter().enumerate() {
            all_from(ctx, &format!("pre{k}"), &sch, p, &alpha, 1, ctx.pick(3, 4), check);
        }
        // an invalid point at every position of a multi-point write of 1..=4 points, after every
        // number of accepted points
        let n = ctx.pick(24, 48);
        ctx.part("refusal at position p of a multi-point write after n points", (n * 4 * 4 * 3) as u64);
        ctx.par(n * 4 * 4 * 3, |k| {
            let (kind, k2) = (k % 3, k / 3);
            let (pos, k3) = (k2 % 4, k2 / 4);
            let (len, pre) = (k3 % 4 + 1, k3 / 4);
            if pos >= len {
                return;
            }
            ctx.case(|| format!("position/{k}"), || {
                let sch: Vec<Ser> = ["a", "b", "c", "e"]
                    .iter()
                    .zip(configs().into_iter().cycle().skip(pre % 10))
                    .map(|(s, (t, e, c))| ser("d", s, t, e, c))
                    .collect();
                let mut c = Case::new(&sch);
                c.push(&A::Burst("d", "b", pre));
                let mut ps = vec![];
                for (q, s) in sch.iter().take(len).enumerate() {
                    if q == pos {
                        match kind {
                            0 => ps.push(("zz", V::Is(Val::I(3)))),
                            1 => ps.push((s.sen, V::Is(Val::D(3)))),
                            _ => ps.push((sch[if q > 0 { q - 1 } else { 1 }].sen, V::Is(Val::D(1)))),
                        }
                    } else {
                        ps.push((s.sen, V::Auto));
                    }
                }
                c.push(&A::M("d", T::Plus(1), ps));
                c.push(&A::W("d", "a", T::Plus(1), V::Auto));
                c.push(&A::W("d", "a", T::Plus(0), V::Auto));
                ctx.steps(c.ops.len());
                ctx.state(c.model.fingerprint());
                check(&c).map_err(|e| format!("{e} -- {}", show_ops(&c.ops)))
            });
        });
        // refused and empty multi-point writes after any number of rows wider than a chunk group
        let (wide, rows) = (ctx.pick(36, 60), ctx.pick(6, 12));
        ctx.part("rows over many series, then a refused or empty multi-point write", (wide * rows * 5) as u64);
        ctx.par(wide * rows * 5, |k| {
            let (kind, rows, wide) = (k % 5, k / 5 % rows, k / 5 / rows + 1);
            ctx.case(|| format!("wide/{wide}/{rows}/{kind}"), || {
                let sch: Vec<Ser> = (0..wide)
                    .zip(configs().into_iter().cycle())
                    .map(|(i, (t, e, c))| ser("d", crate::c_write::name('s', i), t, e, c))
                    .collect();
                let row = A::M("d", T::Plus(1), sch.iter().map(|s| (s.sen, V::Auto)).collect());
                let mut c = Case::new(&sch);
                for _ in 0..=rows {
                    c.push(&row);
                }
                for _ in 0..2 {
                    c.push(&match kind {
                        0 => A::M("d", T::Plus(1), vec![]),
                        1 => A::M("d", T::Plus(1), vec![("zz", V::Auto)]),
                        2 => A::M("d", T::Plus(1), vec![(sch[0].sen, V::Is(Val::D(3)))]),
                        3 => A::M("d", T::Plus(0), vec![(sch[0].sen, V::Auto)]),
                        _ => A::W("d", sch[wide - 1].sen, T::Plus(0), V::Auto),
                    });
                }
                c.push(&A::W("d", sch[0].sen, T::Plus(1), V::Auto));
                c.push(&row);
                ctx.steps(c.ops.len());
                ctx.state(c.model.fingerprint());
                check(&c).map_err(|e| format!("{e} -- {}", show_ops(&c.ops)))
            });
        });
    }
}

// ---------------------------------------------------------------- C04

pub fn c04(ctx: &Ctx) {
    let judge = |b: &[u8], deg: usize| verify::structure(b, deg).map(|_| ());
    // names of every critical length
    let lens: Vec<usize> = if ctx.quick() {
        vec![0, 1, 2, 31, 63, 64, 65, 127, 128, 8191, 8192, 8193]
    } else {
        let mut v: Vec<usize> = (0..200).collect();
        v.extend([8190, 8191, 8192, 8193, 16383, 16384, 16385, 1 << 20]);
        v
    };
    let n = lens.len();
    ctx.part("name lengths (device x sensor)", (n * n) as u64);
    ctx.par(n * n, |k| {
        let (dl, sl) = (lens[k % n], lens[k / n]);
        if dl + sl > 1_200_000 {
            return;
        }
        ctx.case(|| format!("names/{dl}/{sl}"), || {
            let sch = [
                ser(leak("d".repeat(dl)), leak("s".repeat(sl)), Ty::I64, Enc::Diff, Comp::Raw),
                ser(leak("e".repeat(sl + 1)), leak("t".repeat(dl)), Ty::I32, Enc::Plain, Comp::Snappy),
            ];
            let mut c = Case::new(&sch);
            for q in 0..3 {
                c.push(&A::W(sch[q % 2].dev, sch[q % 2].sen, T::Plus(1), V::Auto));
            }
            ctx.steps(3);
            ctx.state(c.model.fingerprint());
            let b = conform(&c, &Sink::new(), None)?;
            judge(&b, 256)?;
            verify::round_trip(&b, &c.model)
        });
    });
    // names whose length does not fit into 16 bits, or needs a third byte
    let long: Vec<usize> = [1 << 14, 1 << 15, 1 << 16].into_iter().flat_map(|n| [n - 1, n, n + 1]).collect();
    let n = long.len();
    ctx.part("long names", (n * 4) as u64);
    ctx.par(n * 4, |k| {
        let (len, kind) = (long[k % n], k / n);
        ctx.case(|| format!("long/{len}/{kind}"), || {
            let (dl, sl) = [(len, 1), (1, len), (len, len), (len + 1, len / 2)][kind];
            let c = configs()[k % configs().len()];
            let sch = [
                ser(leak("d".repeat(dl)), leak("s".repeat(sl)), Ty::I64, Enc::Diff, Comp::Raw),
                ser(leak("d".repeat(dl)), "u", c.0, c.1, c.2),
                ser("e", leak("t".repeat(sl)), Ty::I32, Enc::Plain, Comp::Snappy),
            ];
            let mut c = Case::new(&sch);
            for q in 0..6 {
                c.push(&A::W(sch[q % 3].dev, sch[q % 3].sen, T::Plus(1), V::Auto));
            }
            ctx.steps(6);
            ctx.state(c.model.fingerprint());
            let b = conform(&c, &Sink::new(), None)?;
            judge(&b, 256)?;
            verify::round_trip(&b, &c.model)
        });
    });
    columns(ctx, |b, _| judge(b, 256));
    // no writes at all, and each subset of series written once, for each number of series
    for i in 0..10 {
        let mut sch = mixed(i);
        sch.push(ser("a", "x", Ty::I32, Enc::Diff, Comp::Snappy));
        let name = if ctx.small { "small" } else { "real" };
        let alpha: Vec<A> = sch.iter().map(|s| w(s.dev, s.sen)).collect();
        all(ctx, &format!("{name}/few{i}"), &sch, &alpha, ctx.pick(4, 5), |c| {
            let b = conform(c, &Sink::new(), None)?;
            judge(&b, 256)
        });
    }
    flush_masks(ctx, |b, _, deg| judge(b, deg));
    crate::high::far_offsets(ctx, |b, _, deg| judge(b, deg));
    many_flushes(ctx, |b, _, deg| judge(b, deg));
    name_pairs(ctx, |b, m| {
        judge(b, 256)?;
        verify::round_trip(b, m)
    });
    if ctx.small {
        for i in 0..10 {
            let sch = mixed(i);
            let alpha = [
                w("d1", "s1"),
                w("d2", "s1"),
                A::Burst("d1", "s2", 3),
                A::Burst("d2", "s1", 7),
                A::Burst("d1", "s1", 16),
                A::M("d1", T::Plus(1), vec![("s1", V::Auto), ("s2", V::Auto)]),
            ];
            all(ctx, &format!("hist{i}"), &sch, &alpha, ctx.pick(4, 6), |c| {
                let b = conform(c, &Sink::new(), None)?;
                if c.model.fingerprint() % 16 == 0 {
                    shape(ctx, &b);
                }
                judge(&b, 256)
            });
        }
        // small index fan-out
        for deg in 2..=4 {
            let sizes = ctx.pick(12, 24);
            ctx.par(sizes * sizes, |k| {
                let (nd, ns) = (k % sizes + 1, k / sizes + 1);
                ctx.case(|| format!("index/{deg}/{nd}/{ns}"), || {
                    let sch = grid(nd, ns);
                    let mut c = Case::new(&sch);
                    for s in &sch {
                        c.push(&w(s.dev, s.sen));
                    }
                    ctx.steps(sch.len());
                    ctx.state(c.model.fingerprint());
                    let b = conform(&c, &Sink::new(), Some(deg))?;
                    let wk = verify::structure(&b, deg)?;
                    ctx.outcome(&format!("index depth {}+{}", wk.depth_dev, wk.depth_sen));
                    Ok(())
                });
            });
        }
    } else {
        real_lengths(ctx, "pages", ctx.pick(16_000, 100_000), |b, _| verify::structure(b, 256).map(|_| ()));
        long_streams(ctx, "pages", |b, _| verify::structure(b, 256).map(|_| ()));
        big_flush(ctx, |b, _| verify::structure(b, 256).map(|_| ()));
    }
}

pub fn grid(nd: usize, ns: usize) -> Vec<Ser> {
    let c = configs();
    let mut v = vec![];
    for d in 0..nd {
        for s in 0..ns {
            let (t, e, k) = c[(d * 7 + s) % c.len()];
            v.push(ser(name('d', d), name('s', s), t, e, k));
        }
    }
    v
}

/// Interned names "d0000", ...
pub fn name(p: char, i: usize) -> Name {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    static N: OnceLock<Mutex<HashMap<(char, usize), Name>>> = OnceLock::new();
    N.get_or_init(Default::default)
        .lock()
        .unwrap()
        .entry((p, i))
        .or_insert_with(|| leak(format!("{p}{i:04}")))
}

// ---------------------------------------------------------------- C06

pub fn extremes(ty: Ty) -> Vec<Val> {
    match ty {
        Ty::I32 => vec![Val::I(0), Val::I(1), Val::I(-1), Val::I(i32::MAX), Val::I(i32::MIN), Val::I(63), Val::I(-65)],
        Ty::I64 => vec![Val::L(0), Val::L(1), Val::L(-1), Val::L(i64::MAX), Val::L(i64::MIN), Val::L(1 << 53), Val::L(-(1 << 31))],
        Ty::F32 => [
            0.0f32,
            1.5,
            -1.5,
            f32::INFINITY,
            f32::NEG_INFINITY,
            f32::NAN,
            f32::MAX,
            f32::MIN,
            -0.0,
            f32::from_bits(1),
        ]
        .into_iter()
        .map(Val::f)
        .collect(),
    }
}

pub fn c06(ctx: &Ctx) {
    let check = |c: &Case| -> Result<(), String> {
        let b = conform(c, &Sink::new(), None)?;
        let n = verify::statistics(&b, &c.model)?;
        if c.model.fingerprint() % 64 == 0 {
            ctx.outcome(&format!("{} statistics records", n.min(40)));
        }
        Ok(())
    };
    let kinds = [
        (Ty::I32, Enc::Plain, Comp::Raw),
        (Ty::I64, Enc::Diff, Comp::Raw),
        (Ty::F32, Enc::Plain, Comp::Raw),
        (Ty::I32, Enc::Diff, Comp::Snappy),
        (Ty::I64, Enc::Plain, Comp::Snappy),
    ];
    let name = if ctx.small { "small" } else { "real" };
    for (k, (ty, enc, comp)) in kinds.into_iter().enumerate() {
        let sch = [ser("d", "s", ty, enc, comp)];
        let ex = extremes(ty);
        // all value sequences
        let alpha: Vec<A> = ex.iter().map(|v| A::W("d", "s", T::Plus(1), V::Is(*v))).collect();
        all(ctx, &format!("{name}/values{k}"), &sch, &alpha, ctx.pick(4, 5), check);
        // values with boundary timestamps
        let mut alpha: Vec<A> = vec![];
        for t in [T::Abs(0), T::Abs(1), T::Plus(1000), T::Abs(i64::MAX - 1), T::Abs(i64::MAX)] {
            for v in ex.iter().take(3) {
                alpha.push(A::W("d", "s", t, V::Is(*v)));
            }
        }
        all(ctx, &format!("{name}/times{k}"), &sch, &alpha, 3, check);
        if ctx.small {
            // several pages and chunks: all long sequences over each triple of values
            let depth = ctx.pick(8, 11);
            for a in 0..ex.len() {
                let tri = [ex[a], ex[(a + 3) % ex.len()], ex[(a + 4) % ex.len()]];
                let alpha: Vec<A> = tri.iter().map(|v| A::W("d", "s", T::Plus(1), V::Is(*v))).collect();
                all_from(ctx, &format!("long{k}.{a}"), &sch, &[], &alpha, depth, depth, check);
            }
            // runs of equal values of every length, so that whole pages and chunks hold one value
            let m = ctx.pick(14, 22);
            ctx.part("runs of two values", (ex.len() * ex.len() * m * m) as u64);
            ctx.par(ex.len() * ex.len() * m * m, |q| {
                let (a, q1) = (q % ex.len(), q / ex.len());
                let (b, q2) = (q1 % ex.len(), q1 / ex.len());
                let (n1, n2) = (q2 % m, q2 / m);
                ctx.case(|| format!("runs{k}/{q}"), || {
                    let mut c = Case::new(&sch);
                    for _ in 0..n1 {
                        c.push(&A::W("d", "s", T::Plus(1), V::Is(ex[a])));
                    }
                    for _ in 0..n2 {
                        c.push(&A::W("d", "s", T::Plus(1), V::Is(ex[b])));
                    }
                    ctx.steps(n1 + n2);
                    ctx.state(c.model.fingerprint());
                    check(&c).map_err(|e| format!("{e} -- {n1} x {:?}, {n2} x {:?}", ex[a], ex[b]))
                });
            });
        }
    }
    flush_masks(ctx, |b, m, _| verify::statistics(b, m).map(|_| ()));
    many_flushes(ctx, |b, m, _| verify::statistics(b, m).map(|_| ()));
    if ctx.small {
        // several series side by side, flushed together
        for i in 0..10 {
            let sch = mixed(i);
            let alpha = [
                A::Burst("d1", "s1", 2),
                A::Burst("d1", "s2", 3),
                A::Burst("d2", "s1", 5),
                A::M("d1", T::Plus(1), vec![("s1", V::Auto), ("s2", V::Auto)]),
            ];
            all(ctx, &format!("mixed{i}"), &sch, &alpha, ctx.pick(5, 7), check);
        }
    } else {
        real_lengths(ctx, "pages", ctx.pick(16_000, 80_000), |b, m| verify::statistics(b, m).map(|_| ()));
        long_streams(ctx, "pages", |b, m| verify::statistics(b, m).map(|_| ()));
    }
}

// ---------------------------------------------------------------- C08

pub fn c08(ctx: &Ctx) {
    columns(ctx, |b, m| {
        let d = scan(b)?;
        if let Some(s) = &d.stop {
            return Err(format!("scan stops at {}: {s}", d.end));
        }
        verify::data_matches(&d, m)
    });
    if !ctx.small {
        real_lengths(ctx, "pages", ctx.pick(16_000, 60_000), |b, m| verify::data_matches(&scan(b)?, m));
        long_streams(ctx, "pages", |b, m| verify::data_matches(&scan(b)?, m));
    }
}

/// Columns over the whole domain of values and times
pub fn columns(ctx: &Ctx, f: impl Fn(&[u8], &Model) -> R<()> + Sync) {
    let check = |c: &Case| -> R<()> { f(&conform(c, &Sink::new(), None)?, &c.model) };
    let name = if ctx.small { "small" } else { "real" };
    let cfg = configs();
    for (k, (ty, enc, comp)) in cfg.iter().copied().enumerate() {
        let sch = [ser("d", "s", ty, enc, comp)];
        // all short sequences over the extremes of the type
        let mut ex = extremes(ty);
        match ty {
            Ty::I32 => ex.extend([Val::I(i32::MAX - 1), Val::I(i32::MIN + 1), Val::I(1 << 30)]),
            Ty::I64 => ex.extend([Val::L(i64::MAX - 1), Val::L(i64::MIN + 1), Val::L(1 << 62)]),
            Ty::F32 => ex.extend([Val::F(0x7fc00001), Val::F(0xffffffff), Val::F(0x7f800001)]),
        }
        let alpha: Vec<A> = ex.iter().map(|v| A::W("d", "s", T::Plus(1), V::Is(*v))).collect();
        all(ctx, &format!("{name}/values{k}"), &sch, &alpha, ctx.pick(4, 5), check);
        // all increasing sequences of boundary timestamps
        let ts: Vec<i64> = vec![
            0, 1, 2, 127, 255, 1 << 15, (1 << 31) - 1, 1 << 31, (1 << 32) + 1, 1 << 62, i64::MAX - 1, i64::MAX,
        ];
        ctx.part(&format!("{name}: increasing timestamp sequences"), 1 << ts.len());
        ctx.par(1 << ts.len(), |mask| {
            ctx.case(|| format!("{name}/times{k}/{mask}"), || {
                let mut c = Case::new(&sch);
                for (i, t) in ts.iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        c.push(&A::W("d", "s", T::Abs(*t), V::Auto));
                    }
                }
                ctx.steps(c.ops.len());
                ctx.state(c.model.fingerprint());
                check(&c).map_err(|e| format!("{e} -- {}", show_ops(&c.ops)))
            });
        });
        // every single bit, its neighbours and negations, in the middle of a run
        let bits = if ty == Ty::I64 { 64 } else { 32 };
        ctx.part(&format!("{name}: single-bit values"), (bits * 3 * 2 * 3) as u64);
        ctx.par(bits * 3 * 2 * 3, |q| {
            let (bit, q1) = (q % bits, q / bits);
            let (dx, q2) = (q1 % 3, q1 / 3);
            let (neg, pos) = (q2 % 2 == 1, q2 / 2);
            ctx.case(|| format!("{name}/bits{k}/{q}"), || {
                let x = (1u64 << bit).wrapping_add(dx as u64).wrapping_sub(1);
                let x = if neg { x.wrapping_neg() } else { x };
                let v = match ty {
                    Ty::I32 => Val::I(x as i32),
                    Ty::I64 => Val::L(x as i64),
                    Ty::F32 => Val::F(x as u32),
                };
                let mut c = Case::new(&sch);
                for j in 0..3 {
                    c.push(&A::W("d", "s", T::Plus(1), if j == pos { V::Is(v) } else { V::Auto }));
                }
                ctx.steps(3);
                ctx.state(c.model.fingerprint());
                check(&c).map_err(|e| format!("{e} -- {v:?}"))
            });
        });
    }
    // every delta width x every number of deltas: value columns and time columns
    let nmax = ctx.pick(150, 400);
    for (k, (ty, comp)) in [(Ty::I64, Comp::Raw), (Ty::I32, Comp::Raw), (Ty::I64, Comp::Snappy)].into_iter().enumerate() {
        let sch = [ser("d", "s", ty, Enc::Diff, comp)];
        let wmax = if ty == Ty::I64 { 65 } else { 33 };
        let starts = ctx.pick(1, 3);
        ctx.part(&format!("{name}: delta width x length"), (wmax * nmax * starts) as u64);
        ctx.par(wmax * nmax * starts, |q| {
            let (wd, q1) = (q % wmax, q / wmax);
            let (n, st) = (q1 % nmax, q1 / nmax);
            // quick: all lengths up to 20 and those around the block length
            if ctx.quick() && n > 20 && !(126..=131).contains(&n) {
                return;
            }
            ctx.case(|| format!("{name}/width{k}/{q}"), || {
                let step: u64 = if wd == 0 { 0 } else if wd >= 64 { u64::MAX } else { (1u64 << wd) - 1 };
                let mut v: u64 = [0, u64::MAX / 3, 1 << 63][st];
                let mut c = Case::new(&sch);
                for i in 0..=n {
                    let x = match ty {
                        Ty::I64 => Val::L(v as i64),
                        _ => Val::I(v as i32),
                    };
                    // time gaps of this width too, as far as the range allows
                    let gap = if wd < 40 { ((step & (i as u64 * 0x9E37)) + 1) as i64 } else { 1 };
                    c.push(&A::W("d", "s", T::Plus(gap), V::Is(x)));
                    v = v.wrapping_add(if i % 3 == 0 { 0 } else { step >> (i % 2) });
                }
                ctx.steps(n + 1);
                ctx.state(c.model.fingerprint());
                check(&c).map_err(|e| format!("{e} -- width {wd}, {n} deltas"))
            });
        });
    }
    // all lengths through several blocks
    let lmax = ctx.pick(300, 1100);
    ctx.part(&format!("{name}: every length"), (lmax * cfg.len() * PATS.len()) as u64);
    ctx.par(lmax * cfg.len() * PATS.len(), |q| {
        let (i, q1) = (q % cfg.len(), q / cfg.len());
        let (p, n) = (PATS[q1 % PATS.len()], q1 / PATS.len());
        ctx.case(|| format!("{name}/length/{q}"), || {
            let (ty, enc, comp) = cfg[i];
            let s = ser("d", "s", ty, enc, comp);
            let sch = [s];
            let mut c = Case::new(&sch);
            for o in series_ops(s, p, n) {
                c.push_op(o);
            }
            ctx.steps(n);
            ctx.state(c.model.fingerprint());
            check(&c).map_err(|e| format!("{e} -- {n} points {p:?} of {s:?}"))
        });
    });
}
