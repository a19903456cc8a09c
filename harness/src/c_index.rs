//! C05, C07: finding series through the index and the Bloom filter.
use crate::c_write::*;
use crate::ctx::{Ctx, H};
use crate::drive::*;
use crate::hist::{names as names_of_hist, *};
use crate::model::*;
use crate::oracle::*;
use crate::verify;
use std::collections::BTreeSet;

/// Writes `reps` points to each series of `written`, in order, and closes.
fn file(sch: &[Ser], written: &[Ser], reps: usize, degree: Option<usize>) -> R<Vec<u8>> {
    let sink = Sink::new();
    let mut w = open(build_schema_sorted(sch), &sink, degree).map_err(|r| format!("creation: {r:?}"))?;
    for k in 0..reps {
        for s in written {
            let r = apply(&mut w, &Op::W(s.dev, s.sen, k as i64, Val::small(s.ty, k as i64)));
            if !r.is_ok() {
                return Err(format!("write {:?} {:?} {k}: {r:?}", s.dev, s.sen));
            }
        }
    }
    let r = apply(&mut w, &Op::Close);
    if !r.is_ok() {
        return Err(format!("close: {r:?}"));
    }
    Ok(sink.take())
}

/// Every written series is found with all its chunks, no other name is.
fn index_exact(b: &[u8], written: &[Ser], absent: &[(String, String)]) -> R<()> {
    let d = scan(b)?;
    let f = footer(b)?;
    for s in written {
        verify::found(b, &f, &d, s.dev, s.sen)?;
    }
    for (x, y) in absent {
        if let Some(m) = lookup(b, &f, x, y)? {
            return Err(format!("looking up {x:?} {y:?}, which has no data, gives metadata of {:?}", m.sensor));
        }
    }
    Ok(())
}

/// Names that are not there: neighbours of the ones that are, other splits of the same path,
/// devices and sensors combined differently.
fn absentees(sch: &[Ser], written: &[Ser]) -> Vec<(String, String)> {
    let there: BTreeSet<(&str, &str)> = written.iter().map(|s| (s.dev, s.sen)).collect();
    let mut out: BTreeSet<(String, String)> = Default::default();
    let devs: BTreeSet<&str> = sch.iter().map(|s| s.dev).collect();
    let sens: BTreeSet<&str> = sch.iter().map(|s| s.sen).collect();
    let cap = 40;
    for d in devs.iter().take(cap) {
        for s in sens.iter().take(cap) {
            out.insert((d.to_string(), s.to_string()));
        }
    }
    for s in written.iter().take(60) {
        for (d, m) in [
            (format!("{}!", s.dev), s.sen.to_string()),
            (s.dev.to_string(), format!("{}!", s.sen)),
            (s.dev.to_string(), String::new()),
            (String::new(), s.sen.to_string()),
            (s.sen.to_string(), s.dev.to_string()),
            (s.dev.to_string(), "\u{10ffff}".to_string()),
            ("\u{10ffff}".to_string(), s.sen.to_string()),
        ] {
            out.insert((d, m));
        }
        if let Some((i, _)) = s.dev.char_indices().last() {
            out.insert((s.dev[..i].to_string(), s.sen.to_string()));
        }
        if let Some((i, _)) = s.sen.char_indices().last() {
            out.insert((s.dev.to_string(), s.sen[..i].to_string()));
        }
        let full = format!("{}.{}", s.dev, s.sen);
        for (i, _) in full.match_indices('.') {
            out.insert((full[..i].to_string(), full[i + 1..].to_string()));
        }
    }
    out.into_iter().filter(|(d, s)| !there.contains(&(d.as_str(), s.as_str()))).collect()
}

fn fp(sch: &[Ser], written: &[Ser], more: u64) -> u64 {
    let mut h = H::new();
    h.u(more);
    for s in sch {
        h.s(s.dev).s(s.sen);
    }
    for s in written {
        h.s(s.dev).s(s.sen);
    }
    h.get()
}

fn index_case(ctx: &Ctx, sch: &[Ser], written: &[Ser], reps: usize, degree: usize, structure: bool) -> R<()> {
    ctx.steps(written.len() * reps);
    ctx.state(fp(sch, written, (degree * 1000 + reps) as u64));
    let b = file(sch, written, reps, Some(degree))?;
    index_exact(&b, written, &absentees(sch, written))?;
    if structure {
        let w = verify::structure(&b, degree)?;
        ctx.outcome(&format!("degree {degree}: depth {}+{}", w.depth_dev, w.depth_sen));
    }
    Ok(())
}

fn tricky() -> Vec<Name> {
    vec!["", "a", "a.b", "a.b.c", "b", "b.c", ".", "A", "é", "a!", "root.sg1.d-1", "\u{10000}", "\u{ffff}"]
}

pub fn c05(ctx: &Ctx) {
    let name = if ctx.small { "small" } else { "real" };
    let reps = if ctx.small { 12 } else { 1 };
    let exact = |b: &[u8], m: &Model, _: usize| {
        let all: Vec<Ser> = m.sch.clone();
        let w: Vec<Ser> = all.iter().filter(|s| m.pts.get(&(s.dev, s.sen)).map_or(false, |p| !p.is_empty())).copied().collect();
        index_exact(b, &w, &absentees(&all, &w))
    };
    flush_masks(ctx, exact);
    crate::high::far_offsets(ctx, exact);
    crate::c_write::many_flushes(ctx, exact);
    // grids of devices x sensors for small fan-outs
    for deg in 2..=5usize {
        let n = ctx.pick(13, 34);
        let dims: Vec<(usize, usize)> =
            (1..=n).flat_map(|a| (1..=n).map(move |b| (a, b))).filter(|(a, b)| ctx.quick() || a * b <= 600).collect();
        ctx.part(&format!("{name}: grids, fan-out {deg}"), dims.len() as u64);
        ctx.par(dims.len(), |k| {
            let (nd, ns) = dims[k];
            ctx.case(|| format!("{name}/grid/{deg}/{nd}/{ns}"), || {
                let sch = grid(nd, ns);
                let r = if nd * ns <= 40 { reps } else { 1 };
                index_case(ctx, &sch, &sch, r, deg, true)
            });
        });
        // different numbers of sensors per device
        let top = 5usize;
        let cnt = (top + 1).pow(4);
        ctx.part(&format!("{name}: uneven devices, fan-out {deg}"), cnt as u64);
        ctx.par(cnt, |mut k| {
            let id = k;
            ctx.case(|| format!("{name}/uneven/{deg}/{id}"), || {
                let mut sch = vec![];
                for d in 0..4 {
                    for s in 0..(k % (top + 1)) {
                        sch.push(ser(crate::c_write::name('d', d), crate::c_write::name('s', s), Ty::I64, Enc::Plain, Comp::Raw));
                    }
                    k /= top + 1;
                }
                if sch.is_empty() {
                    return Ok(());
                }
                index_case(ctx, &sch, &sch, reps.min(7), deg, true)
            });
        });
    }
    // chains: every number of devices (sensors) with one sensor (device)
    for deg in 2..=5usize {
        let n = ctx.pick(140, 700);
        ctx.part(&format!("{name}: 1 x n and n x 1, fan-out {deg}"), 2 * n as u64);
        ctx.par(2 * n, |k| {
            let (nd, ns) = if k % 2 == 0 { (k / 2 + 1, 1) } else { (1, k / 2 + 1) };
            ctx.case(|| format!("{name}/chain/{deg}/{nd}/{ns}"), || {
                let sch = grid(nd, ns);
                index_case(ctx, &sch, &sch, 1, deg, true)
            });
        });
    }
    // more series than 16 bits count, in one node and in many
    if !ctx.small {
        let many: Vec<(usize, usize, usize)> = ctx.pick(
            vec![(1, 65_537, 256), (65_537, 1, 70_000), (1, 65_537, 70_000)],
            vec![(1, 65_537, 256), (65_537, 1, 256), (65_537, 1, 70_000), (1, 65_537, 70_000), (1, 65_536, 65_536), (300, 300, 2), (300, 300, 256)],
        );
        ctx.part("more series than 16 bits count", many.len() as u64);
        ctx.par(many.len(), |k| {
            let (nd, ns, deg) = many[k];
            ctx.case(|| format!("{name}/many/{deg}/{nd}/{ns}"), || {
                let sch = grid(nd, ns);
                // a search may read a whole node of 70 000: look up the ends and every 301st
                ctx.steps(sch.len());
                let b = file(&sch, &sch, 1, Some(deg))?;
                let some: Vec<Ser> = sch.iter().enumerate().filter(|(i, _)| i % 301 == 0 || i + 3 > sch.len()).map(|x| *x.1).collect();
                index_exact(&b, &some, &[])?;
                verify::structure(&b, deg).map(|_| ())
            });
        });
    }
    // every subset of a 3 x 4 schema that has data
    for deg in [2usize, 3, 256] {
        ctx.part(&format!("{name}: subsets with data, fan-out {deg}"), 1 << 12);
        ctx.par(1 << 12, |mask| {
            ctx.case(|| format!("{name}/subset/{deg}/{mask}"), || {
                let sch = grid(3, 4);
                let w: Vec<Ser> = sch.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
                index_case(ctx, &sch, &w, if ctx.small { 3 } else { 1 }, deg, true)
            });
        });
    }
    // tricky names: all sets of up to 3 (device, sensor) pairs
    let names = tricky();
    let mut pairs = vec![];
    for d in &names {
        for s in &names {
            pairs.push((*d, *s));
        }
    }
    let n = pairs.len();
    let total = n * n * ctx.pick(1, n);
    ctx.part(&format!("{name}: sets of names"), total as u64);
    let degs: &[usize] = if ctx.quick() { &[2] } else { &[2, 3] };
    for deg in degs {
        let deg = *deg;
        ctx.par(total, |k| {
            let mut idx = vec![k % n, k / n % n];
            if !ctx.quick() {
                idx.push(k / n / n);
            }
            if idx.windows(2).any(|w| w[0] > w[1]) {
                return;
            }
            idx.dedup();
            ctx.case(|| format!("{name}/names/{deg}/{k}"), || {
                let sch: Vec<Ser> = idx
                    .iter()
                    .map(|i| ser(pairs[*i].0, pairs[*i].1, Ty::I32, Enc::Plain, Comp::Raw))
                    .collect();
                let mut sorted = sch.clone();
                sorted.sort_by_key(|s| s.dev);
                index_case(ctx, &sorted, &sch, 1, deg, false)
                    .map_err(|e| format!("{e} -- series {:?}", idx.iter().map(|i| pairs[*i]).collect::<Vec<_>>()))
            });
        });
    }
    // names that differ in case, digits, width: pairs and triples of devices, and of sensors
    let wide = names_of_hist();
    let n = wide.len();
    let sets: Vec<Vec<usize>> = {
        let mut v = vec![];
        for a in 0..n {
            for b in a + 1..n {
                v.push(vec![a, b]);
                if !ctx.quick() || (a + b) % 4 == 0 {
                    for c in b + 1..n {
                        v.push(vec![a, b, c]);
                    }
                }
            }
        }
        v.push((0..n).collect());
        v
    };
    ctx.part(&format!("{name}: sets of device names, of sensor names"), sets.len() as u64 * 4);
    ctx.par(sets.len() * 4, |k| {
        let set = &sets[k / 4];
        let (deg, by_device) = ([2usize, 256][k % 2], k / 2 % 2 == 0);
        ctx.case(|| format!("{name}/wide/{deg}/{by_device}/{}", k / 4), || {
            // declared and written in reverse order as well
            let mut sch: Vec<Ser> = set
                .iter()
                .map(|i| match by_device {
                    true => ser(wide[*i], "s", Ty::I32, Enc::Plain, Comp::Raw),
                    false => ser("d", wide[*i], Ty::I32, Enc::Plain, Comp::Raw),
                })
                .collect();
            if k % 8 < 4 {
                sch.reverse();
            }
            index_case(ctx, &sch, &sch, 1, deg, true)
                .map_err(|e| format!("{e} -- names {:?}", set.iter().map(|i| wide[*i]).collect::<Vec<_>>()))
        });
    });
    // all the tricky names at once, in every fan-out; and with each one left without data
    for deg in 2..=20usize {
        ctx.par(names.len() + 1, |out| {
            ctx.case(|| format!("{name}/allnames/{deg}/{out}"), || {
                let mut sch = vec![];
                for d in &names {
                    for s in &names {
                        sch.push(ser(d, s, Ty::I32, Enc::Diff, Comp::Raw));
                    }
                }
                let w: Vec<Ser> = sch
                    .iter()
                    .copied()
                    .filter(|s| names.get(out).map_or(true, |o| s.dev != *o && s.sen != *o))
                    .collect();
                index_case(ctx, &sch, &w, 1, deg, true)
            });
        });
    }
    if !ctx.small {
        // the default fan-out
        let mut dims: Vec<(usize, usize)> = vec![];
        for x in ctx.pick(vec![1, 255, 256, 257, 511, 512, 513, 1025], (240..=275).chain(500..=530).chain([1, 1023, 1024, 1025, 2049]).collect::<Vec<_>>()) {
            for y in [1usize, 2, 3] {
                dims.push((x, y));
                dims.push((y, x));
            }
        }
        dims.push((257, 257));
        if !ctx.quick() {
            dims.extend([(65535, 1), (65536, 1), (65537, 1), (1, 65536), (1, 65537), (300, 300), (513, 260)]);
        }
        ctx.part("default fan-out", dims.len() as u64);
        ctx.par(dims.len(), |k| {
            let (nd, ns) = dims[k];
            ctx.case(|| format!("default/{nd}/{ns}"), || {
                let sch: Vec<Ser> = grid(nd, ns);
                index_case_big(ctx, &sch)
            });
        });
    }
}

fn index_case_big(ctx: &Ctx, sch: &[Ser]) -> R<()> {
    ctx.steps(sch.len());
    ctx.state(fp(sch, &[], 256));
    let b = file(sch, sch, 1, None)?;
    let w = verify::structure(&b, 256)?;
    ctx.outcome(&format!("degree 256: depth {}+{}", w.depth_dev, w.depth_sen));
    let f = footer(&b)?;
    let d = scan(&b)?;
    let at: std::collections::HashMap<(&str, &str), usize> =
        d.chunks().map(|(x, c)| ((x, c.sensor.as_str()), c.offset)).collect();
    for s in sch {
        let m = lookup(&b, &f, s.dev, s.sen)?
            .ok_or_else(|| format!("series {:?} {:?} has data but is not found through the index", s.dev, s.sen))?;
        if m.chunks.len() != 1 || Some(&m.chunks[0].0) != at.get(&(s.dev, s.sen)) {
            return Err(format!("series {:?} {:?}: index gives {:?}", s.dev, s.sen, m.chunks));
        }
    }
    for (x, y) in absentees(sch, sch) {
        if lookup(&b, &f, &x, &y)?.is_some() {
            return Err(format!("{x:?} {y:?} found, it has no data"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

/// Paths whose hash is extreme for one of the seeds (found by search): (seed, hash, path)
pub const EXTREME: &[(u32, i32, &str)] = &[
    (5, -2147483648, "x.5kmyqt"),
    (5, -2147483647, "k.4bpuka"),
    (5, 2147483647, "v.cypdye"),
    (5, 0, "3.fmoajd"),
    (7, -2147483648, "l.ufdmga"),
    (7, -2147483647, "s.xsrl4b"),
    (7, 2147483647, "o.wvse3g"),
    (7, 0, "p.qssrab"),
    (11, -2147483648, "l.iyqahb"),
    (11, -2147483647, "z.egpmjc"),
    (11, 2147483647, "i.q0epxt"),
    (11, 0, "f.etmi1a"),
    (19, -2147483648, "c.kgzc5c"),
    (19, -2147483647, "j.jdujvb"),
    (19, 2147483647, "b.x4r2ae"),
    (19, 0, "q.cqgiym"),
    (31, -2147483648, "m.z1fugd"),
    (31, -2147483647, "h.03kcuk"),
    (31, 2147483647, "f.qgvwgh"),
    (31, 0, "y.ktpwia"),
    (37, -2147483648, "y.kbhhce"),
    (37, -2147483647, "q.ujykrd"),
    (37, 2147483647, "k.z5o42f"),
    (37, 0, "q.m5cr1r"),
    (43, -2147483648, "5.ok2grh"),
    (43, -2147483647, "q.udzqma"),
    (43, 2147483647, "p.nam2av"),
    (43, 0, "x.tirkjb"),
    (59, -2147483648, "t.1kyalb"),
    (59, -2147483647, "4.f4ut0c"),
    (59, 2147483647, "c.40hwcd"),
    (59, 0, "2.jcltxe"),
];

fn bloom_case(ctx: &Ctx, sch: &[Ser], written: &[Ser]) -> R<()> {
    ctx.steps(written.len());
    ctx.state(fp(sch, written, 7));
    let b = file(sch, written, 1, None)?;
    let f = footer(&b)?;
    let present: Vec<(Name, Name)> = written.iter().map(|s| (s.dev, s.sen)).collect();
    ctx.outcome(&format!("filter of {} bits", if f.bloom.size == 256 { "256" } else { "more than 256" }));
    verify::bloom(&f, &present)
}

pub fn c07(ctx: &Ctx) {
    if ctx.small {
        flush_masks(ctx, |b, m, _| {
            let p: Vec<(Name, Name)> = m.pts.iter().filter(|x| !x.1.is_empty()).map(|x| *x.0).collect();
            verify::bloom(&footer(b)?, &p)
        });
        // several chunks per series do not change the filter
        ctx.par(60 * 3, |k| {
            let (n, reps) = (k % 60, [1usize, 9, 40][k / 60]);
            ctx.case(|| format!("chunks/{n}/{reps}"), || {
                let sch = grid(n + 1, 2);
                let b = file(&sch, &sch, reps, None)?;
                let f = footer(&b)?;
                ctx.steps(sch.len() * reps);
                ctx.state(fp(&sch, &sch, reps as u64));
                let p: Vec<(Name, Name)> = sch.iter().map(|s| (s.dev, s.sen)).collect();
                verify::bloom(&f, &p)
            });
        });
        // all subsets with data
        ctx.par(1 << 10, |mask| {
            ctx.case(|| format!("subset/{mask}"), || {
                let sch = grid(2, 5);
                let w: Vec<Ser> = sch.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
                bloom_case(ctx, &sch, &w)
            });
        });
        return;
    }
    // every number of series
    let n = ctx.pick(720, 2500);
    ctx.part("every number of series", 2 * n as u64);
    ctx.par(2 * n, |k| {
        let n = k / 2;
        ctx.case(|| format!("count/{k}"), || {
            let sch = if k % 2 == 0 { grid(n.max(1), 1) } else { grid(1, n.max(1)) };
            let w: &[Ser] = if n == 0 { &[] } else { &sch };
            bloom_case(ctx, &sch, w)
        });
    });
    // as many as need more than 16 bits for the number of bits, of bytes, of series
    let mut many: Vec<(usize, usize)> = vec![(50, 100), (1, 10_509), (10_510, 1), (1, 10_511), (51, 206), (1, 84_100), (841, 100)];
    many.extend(ctx.pick(vec![], vec![(84_100, 1), (700, 100), (1, 65_535), (1, 65_536), (65_537, 1), (300, 700)]));
    ctx.par(many.len(), |k| {
        let (d, s) = many[many.len() - 1 - k];
        ctx.case(|| format!("many/{d}/{s}"), || {
            let sch = grid(d, s);
            bloom_case(ctx, &sch, &sch)
        });
    });
    // every path length, dot at every place, several contents
    let lmax = ctx.pick(70, 160);
    ctx.part("path lengths x dot positions", (lmax * lmax) as u64);
    ctx.par(lmax * lmax, |k| {
        let (dl, sl) = (k % lmax, k / lmax);
        for q in 0..ctx.pick(2usize, 6) {
            ctx.case(|| format!("length/{dl}/{sl}/{q}"), || {
                let gen = |n: usize, salt: u64| -> Name {
                    leak((0..n).map(|i| (33 + (lcg(i as u64 * 7 + salt + q as u64 * 1000) % 94) as u8) as char).collect())
                };
                let sch = [
                    ser(gen(dl, 1), gen(sl, 2), Ty::I32, Enc::Plain, Comp::Raw),
                    ser(leak("z".repeat(sl + 1)), leak("\u{7f}".repeat(dl)), Ty::I32, Enc::Plain, Comp::Raw),
                ];
                bloom_case(ctx, &sch, &sch)
            });
        }
    });
    // characters of every width at every place of the path, up to three blocks long
    let chars = ["\u{e9}", "\u{80}", "\u{7ff}", "\u{6e29}", "\u{ffff}", "\u{1f321}", "\u{10ffff}"];
    let m = ctx.pick(36, 66);
    ctx.part("wide characters x place in the path", (m * m * chars.len()) as u64);
    ctx.par(m * m * chars.len(), |k| {
        let (pre, post, c) = (k % m, k / m % m, k / m / m);
        ctx.case(|| format!("wide/{pre}/{post}/{c}"), || {
            let gen = |n: usize, salt: u64| -> String {
                (0..n).map(|i| (97 + (lcg(i as u64 * 5 + salt) % 26) as u8) as char).collect()
            };
            let sch = [
                ser(leak(gen(pre, 3)), leak(format!("{}{}", chars[c], gen(post, 4))), Ty::I32, Enc::Plain, Comp::Raw),
                ser(leak(chars[c].repeat(pre / 2 + 1)), leak(chars[(c + 1) % chars.len()].repeat(post)), Ty::I32, Enc::Plain, Comp::Raw),
            ];
            bloom_case(ctx, &sch, &sch)
        });
    });
    // every path of two ASCII names of one character, and every sensor name of two characters
    ctx.part("all names of one or two characters", 128 * 128 * 2);
    ctx.par(128 * 128, |k| {
        let (a, b) = ((k % 128) as u8 as char, (k / 128) as u8 as char);
        ctx.case(|| format!("chars/{k}"), || {
            let sch = [
                ser(leak(a.to_string()), leak(b.to_string()), Ty::I32, Enc::Plain, Comp::Raw),
                ser("root.sg.device1", leak(format!("{a}{b}")), Ty::I64, Enc::Plain, Comp::Raw),
            ];
            bloom_case(ctx, &sch, &sch)
        });
    });
    // paths with extreme hashes
    ctx.part("paths with extreme hash values", EXTREME.len() as u64);
    for (i, (seed, h, p)) in EXTREME.iter().enumerate() {
        ctx.case(|| format!("extreme/{i}"), || {
            if murmur(p.as_bytes(), *seed) != *h {
                return Err("harness: table of extreme hashes".into());
            }
            let (d, s) = p.split_once('.').unwrap();
            for others in [0usize, 1, 300] {
                let mut sch = grid(others.max(1), 1);
                if others == 0 {
                    sch.clear();
                }
                sch.push(ser(leak(d.into()), leak(s.into()), Ty::I32, Enc::Plain, Comp::Raw));
                bloom_case(ctx, &sch, &sch)?;
            }
            Ok(())
        });
    }
    // two series with one path: both must be there; the number of series is not compared
    for (a, b) in [(("a.b", "c"), ("a", "b.c")), (("", "."), (".", "")), (("x", "y.z.w"), ("x.y.z", "w"))] {
        ctx.case(|| format!("collision/{a:?}"), || {
            let sch = [ser(a.0, a.1, Ty::I32, Enc::Plain, Comp::Raw), ser(b.0, b.1, Ty::I32, Enc::Plain, Comp::Raw)];
            let by = file(&sch, &sch, 1, None)?;
            let f = footer(&by)?;
            for s in &sch {
                if !bloom_has(&f.bloom, &format!("{}.{}", s.dev, s.sen)) {
                    return Err(format!("Bloom filter denies {:?} {:?}", s.dev, s.sen));
                }
            }
            Ok(())
        });
    }
}
