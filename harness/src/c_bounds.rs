//! C09: buffering is bounded.
use crate::c_write::*;
use crate::ctx::{Ctx, H};
use crate::drive::*;
use crate::hist::*;
use crate::model::*;
use crate::oracle::*;
use crate::poison;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub const PAGE: usize = 64 << 10;
pub const GROUP: usize = 128 << 20;

/// Steady inputs: the encoded size per point does not change along the stream.
#[derive(Clone, Copy, Debug)]
struct Steady {
    /// width in bits of the noise in the time gaps
    tbits: u32,
    /// width in bits of the noise in the values
    vbits: u32,
}

impl Steady {
    fn time(&self, last: i64, k: u64) -> i64 {
        let m = if self.tbits == 0 { 0 } else { lcg(k) >> (64 - self.tbits) };
        last + 1 + m as i64
    }
    fn val(&self, ty: Ty, k: u64) -> Val {
        let x = if self.vbits == 0 { 3 } else { lcg(k ^ 0x55) >> (64 - self.vbits) };
        match ty {
            Ty::I32 => Val::I(x as i32),
            Ty::I64 => Val::L(x as i64),
            Ty::F32 => Val::F(x as u32 & 0xbfff_ffff),
        }
    }
}

struct Stats {
    max_first: AtomicUsize,
    max_later: AtomicUsize,
    max_group: AtomicUsize,
}

/// Page sizes of one series
fn pages(ctx: &Ctx, st: &Stats, s: Ser, p: Steady, n: usize) -> R<()> {
    let sink = Sink::new();
    let mut w = open(build_schema(&[s]), &sink, None).map_err(|r| format!("{r:?}"))?;
    let mut t = -1;
    for k in 0..n {
        t = p.time(t, k as u64);
        let r = res(w.write(s.dev, s.sen, t, p.val(s.ty, k as u64).api()));
        if !r.is_ok() {
            return Err(format!("point {k}: {r:?}"));
        }
    }
    let r = apply(&mut w, &Op::Close);
    if !r.is_ok() {
        return Err(format!("close: {r:?}"));
    }
    ctx.steps(n);
    ctx.state(H::new().u(p.tbits as u64).u(p.vbits as u64).s(&format!("{s:?}")).get());
    let d = scan(&sink.take())?;
    let mut np = 0;
    for (_, c) in d.chunks() {
        for (i, pg) in c.pages.iter().enumerate() {
            np += 1;
            let (lim, m) = if i == 0 { (PAGE * 21 / 10, &st.max_first) } else { (PAGE * 12 / 10, &st.max_later) };
            m.fetch_max(pg.uncompressed, Relaxed);
            if pg.uncompressed > lim {
                return Err(format!(
                    "page {i} of a steady stream ({p:?}, {s:?}) holds {} bytes in {} points, limit 64 KiB",
                    pg.uncompressed,
                    pg.pts.len()
                ));
            }
        }
    }
    ctx.outcome(&format!("pages {}", if np > 9 { "10+".to_string() } else { np.to_string() }));
    Ok(())
}

/// Chunk groups of `series` equal series written in turn, until `flushes` automatic flushes
fn groups(ctx: &Ctx, st: &Stats, ty: Ty, enc: Enc, comp: Comp, p: Steady, series: usize, many: bool, flushes: usize) -> R<()> {
    let sch: Vec<Ser> = (0..series)
        .map(|i| ser(if many { "d" } else { crate::c_write::name('d', i) }, crate::c_write::name('s', i), ty, enc, comp))
        .collect();
    let sink = Sink::new();
    let mut w = open(build_schema(&sch), &sink, None).map_err(|r| format!("{r:?}"))?;
    let mut t = -1;
    let mut k = 0u64;
    let mut seen = sink.len();
    let mut since = 0usize;
    let mut per: Vec<usize> = vec![];
    // generous: raw size of a point never exceeds 16 bytes plus block headers, never less than 1
    let stop_points = 2 * GROUP;
    while per.len() < flushes {
        t = p.time(t, k);
        let n;
        if many {
            let ps: Vec<_> = sch
                .iter()
                .enumerate()
                .map(|(i, s)| tsfile_writer::writer::tsfile_writer::DataPoint::new(s.sen, p.val(ty, k * 64 + i as u64).api()))
                .collect();
            let r = res(w.write_many("d", t, ps));
            if !r.is_ok() {
                return Err(format!("write_many {k}: {r:?}"));
            }
            n = series;
        } else {
            let s = sch[(k % series as u64) as usize];
            let r = res(w.write(s.dev, s.sen, t, p.val(ty, k).api()));
            if !r.is_ok() {
                return Err(format!("write {k}: {r:?}"));
            }
            n = 1;
        }
        k += 1;
        since += n;
        let now = sink.len();
        if now != seen {
            // everything accepted so far is in the file now
            let grown = now - seen;
            st.max_group.fetch_max(grown, Relaxed);
            if grown > GROUP + GROUP / 20 {
                return Err(format!("{grown} bytes were buffered before they were written, limit 128 MiB"));
            }
            if comp == Comp::Raw && !(ty == Ty::I32 && enc == Enc::Plain) && grown < GROUP / 2 {
                return Err(format!("flush number {} after {since} points wrote only {grown} bytes", per.len()));
            }
            seen = now;
            per.push(since);
            since = 0;
        }
        if since > stop_points {
            return Err(format!("{since} points accepted without any of them written to the file"));
        }
    }
    ctx.steps(k as usize);
    ctx.state(H::new().u(p.tbits as u64).u(p.vbits as u64).u(series as u64).s(&format!("{sch:?}")).get());
    let (mn, mx) = (per.iter().min().unwrap(), per.iter().max().unwrap());
    if mn * 10 < mx * 7 {
        return Err(format!("steady stream flushed after {per:?} points: buffering did not start again from zero"));
    }
    let before = sink.len();
    let r = apply(&mut w, &Op::Close);
    if !r.is_ok() {
        return Err(format!("close: {r:?}"));
    }
    // all points before the last flush were in the file at that time
    let b = sink.take();
    let d = scan(&b)?;
    let mut inside = 0;
    for (_, c) in d.chunks() {
        if c.end <= before {
            inside += c.pages.iter().map(|p| p.pts.len()).sum::<usize>();
        }
    }
    let want: usize = per.iter().sum();
    if inside != want {
        return Err(format!("{want} points were accepted up to the last flush, {inside} were in the file after it"));
    }
    ctx.outcome(&format!("{} flushes", per.len()));
    Ok(())
}

/// Takes everything and keeps nothing
struct Drain(Arc<AtomicUsize>);

impl std::io::Write for Drain {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.fetch_add(b.len(), Relaxed);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Memory really held, by the allocator: in proportion to the bytes that reach the file at the next
/// flush (or the close after `n` points), and not more from flush to flush
fn memory(ctx: &Ctx, (ty, enc, comp): (Ty, Enc, Comp), p: Steady, series: usize, many: bool, n: usize, flushes: usize) -> R<usize> {
    const SPARE: isize = 24 << 20;
    let sch: Vec<Ser> = (0..series).map(|i| ser("d", crate::c_write::name('s', i), ty, enc, comp)).collect();
    let out = Arc::new(AtomicUsize::new(0));
    let before = poison::held();
    let mut w = tsfile_writer::writer::verif::writer_on(build_schema(&sch), Drain(out.clone()), None).map_err(|e| format!("{e:?}"))?;
    poison::peak();
    let (mut t, mut seen, mut peaks) = (-1, out.load(Relaxed), vec![]);
    let mut room = SPARE + series as isize * (1 << 19);
    for k in 0..n as u64 {
        t = p.time(t, k);
        let r = if many {
            let ps = sch.iter().enumerate().map(|(i, s)| tsfile_writer::writer::tsfile_writer::DataPoint::new(s.sen, p.val(ty, k * 64 + i as u64).api()));
            w.write_many("d", t, ps)
        } else {
            let s = sch[k as usize % series];
            w.write(s.dev, s.sen, t, p.val(ty, k).api())
        };
        r.map_err(|e| format!("point {k}: {e:?}"))?;
        let now = out.load(Relaxed);
        if now != seen {
            peaks.push((poison::peak() - before, (now - seen) as isize));
            seen = now;
            if peaks.len() == flushes {
                break;
            }
        }
    }
    let r = w.close();
    r.map_err(|e| format!("close: {e:?}"))?;
    if peaks.len() < flushes || peaks.is_empty() {
        peaks.push((poison::peak() - before, (out.load(Relaxed) - seen) as isize));
    }
    drop(w);
    ctx.steps(n);
    ctx.state(H::new().u(p.tbits as u64).u(p.vbits as u64).u(series as u64).u(many as u64).s(&format!("mem{sch:?}")).get());
    let first = peaks[0].0;
    for (i, (peak, grown)) in peaks.iter().enumerate() {
        if *peak > room + 5 * grown {
            return Err(format!("{peak} bytes of memory were held for {grown} bytes of the file (part {i} of the stream); all parts: {peaks:?}"));
        }
        if i > 0 && *peak > first + first / 2 + SPARE {
            return Err(format!("memory grows from flush to flush: {peaks:?}"));
        }
        room += 1 << 16;
    }
    Ok(peaks.iter().map(|p| p.0).max().unwrap_or(0) as usize)
}

pub fn c09(ctx: &Ctx) {
    let st = Stats { max_first: AtomicUsize::new(0), max_later: AtomicUsize::new(0), max_group: AtomicUsize::new(0) };
    if !ctx.small {
        let tb = ctx.pick(vec![0u32, 20, 40], (0..=44).step_by(4).collect());
        let vb = ctx.pick(vec![0u32, 16, 64], (0..=64).step_by(4).collect());
        let cfg = configs();
        let mut jobs = vec![];
        for c in &cfg {
            for t in &tb {
                for v in &vb {
                    jobs.push((*c, Steady { tbits: *t, vbits: *v }));
                }
            }
        }
        ctx.part("steady streams, page sizes", jobs.len() as u64);
        let n = ctx.pick(220_000, 600_000);
        ctx.par(jobs.len(), |j| {
            let ((ty, enc, comp), p) = jobs[j];
            ctx.case(|| format!("pages/{ty:?}/{enc:?}/{comp:?}/{}/{}", p.tbits, p.vbits), || {
                pages(ctx, &st, ser("d", "s", ty, enc, comp), p, n)
            });
        });
        let mut jobs: Vec<(Ty, Enc, Comp, Steady, usize, bool, usize)> = vec![];
        let s = Steady { tbits: 32, vbits: 64 };
        jobs.push((Ty::I64, Enc::Plain, Comp::Raw, s, 1, false, 2));
        jobs.push((Ty::I64, Enc::Diff, Comp::Raw, s, 3, false, 2));
        jobs.push((Ty::I32, Enc::Plain, Comp::Raw, s, 5, true, 2));
        jobs.push((Ty::F32, Enc::Plain, Comp::Snappy, s, 40, true, 2));
        if !ctx.quick() {
            for (ty, enc, comp) in configs() {
                for (n, m) in [(1, false), (7, false), (7, true), (200, true)] {
                    jobs.push((ty, enc, comp, s, n, m, 3));
                }
            }
        }
        // memory held, by the allocator
        let none = Steady { tbits: 0, vbits: 0 };
        let mut mem: Vec<((Ty, Enc, Comp), Steady, usize, bool, usize, usize)> = vec![];
        for c in &cfg {
            mem.push((*c, none, 1, false, ctx.pick(6_000_000, 40_000_000), 1));
            mem.push((*c, none, 3, true, ctx.pick(2_000_000, 12_000_000), 1));
            mem.push((*c, Steady { tbits: 20, vbits: 16 }, 2, false, ctx.pick(3_000_000, 12_000_000), 1));
        }
        mem.push((cfg[0], s, 1, false, usize::MAX >> 1, 4));
        mem.push((cfg[cfg.len() - 1], s, 5, true, usize::MAX >> 1, 4));
        ctx.part("steady streams, memory", mem.len() as u64);
        let most = AtomicUsize::new(0);
        ctx.par(mem.len(), |j| {
            let (c, p, series, many, n, flushes) = mem[mem.len() - 1 - j];
            ctx.case(|| format!("memory/{j}"), || {
                let m = memory(ctx, c, p, series, many, n, flushes).map_err(|e| format!("{e} -- {series} series of {c:?}, {p:?}, write_many: {many}"))?;
                most.fetch_max(m, Relaxed);
                Ok(())
            });
        });
        ctx.note("most memory held by a writer", most.load(Relaxed));
        ctx.part("steady streams, chunk groups", jobs.len() as u64);
        // four at a time: each holds a few hundred MiB
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..4 {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= jobs.len() || ctx.stop() {
                        break;
                    }
                    let (ty, enc, comp, p, n, many, fl) = jobs[i];
                    ctx.case(|| format!("groups/{ty:?}/{enc:?}/{comp:?}/{n}/{many}"), || {
                        groups(ctx, &st, ty, enc, comp, p, n, many, fl)
                            .map_err(|e| format!("{e} -- {n} series {ty:?} {enc:?} {comp:?}, write_many: {many}"))
                    });
                });
            }
        });
    } else {
        // small limits (page 60 bytes, group 400 bytes): every interleaving of bursts; after each
        // operation, count the accepted points that are not in the file
        for (k, (ty, enc, comp)) in configs().into_iter().enumerate() {
            let sch = [ser("d1", "s1", ty, enc, comp), ser("d1", "s2", ty, enc, comp), ser("d2", "s1", ty, enc, comp)];
            let alpha = [
                A::Burst("d1", "s1", 1),
                A::Burst("d1", "s2", 4),
                A::Burst("d2", "s1", 11),
                A::M("d1", T::Plus(1), vec![("s1", V::Auto), ("s2", V::Auto)]),
                A::Burst("d1", "s1", 30),
            ];
            all(ctx, &format!("small{k}"), &sch, &alpha, ctx.pick(6, 7), |c| {
                let sink = Sink::new();
                let mut w = open(build_schema(&sch), &sink, None).map_err(|r| format!("{r:?}"))?;
                let mut seen = sink.len();
                let mut since = 0usize;
                let mut acc = 0usize;
                for o in &c.ops {
                    let r = apply(&mut w, o);
                    if !r.is_ok() {
                        return Err(format!("{o:?}: {r:?}"));
                    }
                    let n = match o {
                        Op::M(_, _, p) => p.len(),
                        _ => 1,
                    };
                    since += n;
                    acc += n;
                    if sink.len() != seen {
                        seen = sink.len();
                        st.max_group.fetch_max(since, Relaxed);
                        since = 0;
                    }
                    if since > SMALL_POINTS {
                        return Err(format!("{since} points buffered under small limits (at most {SMALL_POINTS} expected)"));
                    }
                }
                // nothing accepted before the last flush was held back
                let d = scan(&sink.bytes())?;
                let inside: usize = d.chunks().map(|c| c.1.pages.iter().map(|p| p.pts.len()).sum::<usize>()).sum();
                if inside != acc - since {
                    return Err(format!("{} points accepted up to the last flush, {inside} in the file after it", acc - since));
                }
                for (_, c) in d.chunks() {
                    for (i, p) in c.pages.iter().enumerate() {
                        let m = if i == 0 { &st.max_first } else { &st.max_later };
                        m.fetch_max(p.uncompressed, Relaxed);
                        if p.uncompressed > SMALL_PAGE {
                            return Err(format!("page of {} bytes under a limit of 60", p.uncompressed));
                        }
                    }
                }
                Ok(())
            });
        }
    }
    if ctx.small {
        row_patterns(ctx, &st);
    }
    ctx.note("largest first page", st.max_first.load(Relaxed));
    ctx.note("largest later page", st.max_later.load(Relaxed));
    ctx.note(if ctx.small { "most points buffered" } else { "largest chunk group" }, st.max_group.load(Relaxed));
}

/// Small limits: steady streams whose calls carry different numbers of points, so that the number
/// of accepted points steps over any value a check might wait for: `before` single points, then a
/// period of rows of the given widths, for many periods.
fn row_patterns(ctx: &Ctx, st: &Stats) {
    let periods: Vec<Vec<usize>> = {
        let mut v: Vec<Vec<usize>> = (1..=6).map(|a| vec![a]).collect();
        for a in 1..=6 {
            for b in 0..=6 {
                v.push(vec![a, b]);
            }
        }
        if !ctx.quick() {
            for q in 0..216 {
                v.push(vec![q % 6 + 1, q / 6 % 6 + 1, q / 36 + 1]);
            }
        }
        v
    };
    let cfg = configs();
    let befores = 8;
    // the row as it is; its end refused, for each reason; its first value refused, every other time;
    // refused calls in between
    let modes = 7;
    let total = periods.len() * befores * cfg.len() * modes;
    ctx.part("rows of different widths", total as u64);
    ctx.par(total, |q| {
        let (before, q1) = (q % befores, q / befores);
        let (mode, q1) = (q1 % modes, q1 / modes);
        let (ci, per) = (q1 % cfg.len(), &periods[q1 / cfg.len()]);
        ctx.case(|| format!("rows/{before}/{ci}/{per:?}/{mode}"), || {
            let (ty, enc, comp) = cfg[ci];
            let wrong = if ty == Ty::F32 { Val::I(1) } else { Val::f(1.0) };
            let sch: Vec<Ser> = (0..6).map(|i| ser("d", crate::c_write::name('s', i), ty, enc, comp)).collect();
            let sink = Sink::new();
            let mut w = open(build_schema(&sch), &sink, None).map_err(|r| format!("{r:?}"))?;
            let mut seen = sink.len();
            let (mut since, mut most) = (0usize, 0usize);
            for k in 0..before + 120 {
                let (n, single) = if k < before { (1, true) } else { (per[(k - before) % per.len()], false) };
                let mut ps: Vec<(Name, Val)> =
                    (0..n).map(|i| (sch[(i + if single { k } else { 0 }) % 6].sen, Val::small(ty, (k as i64 * 37 + i as i64) % 90))).collect();
                let mut n = n;
                let mut refused = false;
                if !single {
                    refused = true;
                    match mode {
                        1 => ps.push(("none", wrong)),
                        2 => ps.push((sch[n % 6].sen, wrong)),
                        3 if n > 0 => ps.push(ps[0]),
                        4 if k % 2 == 0 => {
                            ps.insert(0, (sch[0].sen, wrong));
                            n = 0;
                        }
                        5 if n > 1 => {
                            ps.insert(1, ("none", wrong));
                            n = 1;
                        }
                        _ => refused = false,
                    }
                    if mode == 6 {
                        for o in [Op::W("d", "none", k as i64, wrong), Op::W("d", sch[0].sen, -1, wrong), Op::M("none", k as i64, ps.clone())] {
                            if apply(&mut w, &o).is_ok() {
                                return Err(format!("{}: not refused", show_ops(&[o])));
                            }
                        }
                    }
                }
                let o = if single { Op::W("d", ps[0].0, k as i64, ps[0].1) } else { Op::M("d", k as i64, ps) };
                let r = apply(&mut w, &o);
                if r.is_panic() || r.is_ok() == refused {
                    return Err(format!("{}: {r:?}", show_ops(&[o])));
                }
                since += n;
                if sink.len() != seen {
                    seen = sink.len();
                    since = 0;
                }
                most = most.max(since);
                if since > SMALL_POINTS {
                    return Err(format!(
                        "{since} points buffered under small limits (at most {SMALL_POINTS} expected): {before} single points, then rows of {per:?} of {:?}, refusals {mode}",
                        sch[0]
                    ));
                }
            }
            ctx.steps(before + 120);
            ctx.state(H::new().u(q as u64).u(909).get());
            st.max_group.fetch_max(most, Relaxed);
            ctx.outcome(&format!("at most {} points buffered", most.div_ceil(8) * 8));
            Ok(())
        });
    });
}

/// Bounds under the small limits, measured on the conforming tree, with reserve
const SMALL_POINTS: usize = 48;
const SMALL_PAGE: usize = 120;
