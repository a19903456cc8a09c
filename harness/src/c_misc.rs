//! C17 variable-length integers, C18 schemas and codes, C19 metadata log.
use crate::c_write::{grid, name};
use crate::ctx::{Ctx, H};
use crate::drive::*;
use crate::hist::configs;
use crate::model::*;
use crate::oracle::*;
use crate::verify;
use std::collections::{BTreeMap, BTreeSet};
use tsfile_writer::sync::sync_sender::verif as sync;
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::verif;
use tsfile_writer::writer::{Schema, TSDataType};

// ---------------------------------------------------------------- C17

/// The canonical encoding: (bytes, length)
#[inline]
fn canonical(v: u32) -> ([u8; 5], usize) {
    let mut b = [0u8; 5];
    let mut n = 0;
    let mut x = v;
    while x > 0x7f {
        b[n] = (x % 128) as u8 + 128;
        x /= 128;
        n += 1;
    }
    b[n] = x as u8;
    (b, n + 1)
}

pub fn c17(ctx: &Ctx) {
    // the small variant differs in nothing that matters here: it takes the corners only
    let step: u64 = 1 << 16;
    let blocks: Vec<u64> = if ctx.small {
        (0..65536u64).filter(|b| *b < 40 || *b > 65500 || b.count_ones() == 1 || (b + 1).count_ones() == 1).collect()
    } else {
        (0..65536).collect()
    };
    let v = if ctx.small { "small" } else { "real" };
    ctx.part(&format!("{v}: unsigned values"), blocks.len() as u64 * step);
    ctx.par(blocks.len(), |i| {
        let from = blocks[i] * step;
        ctx.case(|| format!("{v}/u/{from}"), || {
            let mut buf: Vec<u8> = Vec::with_capacity(16);
            for x in from..from + step {
                let x = x as u32;
                let (c, n) = canonical(x);
                buf.clear();
                let announced = verif::write_var_u32(x, &mut buf).map_err(|e| format!("{x}: {e:?}"))?;
                if buf[..] != c[..n] {
                    return Err(format!("{x} is written as {buf:02x?} instead of {:02x?}", &c[..n]));
                }
                if announced as usize != n {
                    return Err(format!("{x}: {announced} bytes announced, {n} written"));
                }
                let size = verif::size_var_u32(x);
                if size as usize != n {
                    return Err(format!("{x}: size {size} predicted, {n} bytes written"));
                }
                // something follows
                buf.extend_from_slice(&[0xff, 0x01]);
                let mut r = &buf[..];
                let back = verif::read_var_u32(&mut r).map_err(|e| format!("{x}: read back: {e:?}"))?;
                if back != x {
                    return Err(format!("{x} is read back as {back}"));
                }
                if r.len() != 2 {
                    return Err(format!("{x}: {} bytes consumed of {n}", n + 2 - r.len().min(n + 2)));
                }
            }
            ctx.distinct(step);
            ctx.steps(4 * step as usize);
            Ok(())
        });
    });
    ctx.part(&format!("{v}: signed values"), blocks.len() as u64 * step);
    ctx.par(blocks.len(), |i| {
        let from = blocks[i] * step;
        ctx.case(|| format!("{v}/i/{from}"), || {
            let mut buf: Vec<u8> = Vec::with_capacity(16);
            for x in from..from + step {
                let x = x as u32 as i32;
                let zz: i64 = if x >= 0 { 2 * x as i64 } else { -2 * x as i64 - 1 };
                let (c, n) = canonical(zz as u32);
                buf.clear();
                let announced = verif::write_var_i32(x, &mut buf).map_err(|e| format!("{x}: {e:?}"))?;
                if buf[..] != c[..n] {
                    return Err(format!("{x} is written as {buf:02x?} instead of {:02x?}", &c[..n]));
                }
                if announced as usize != n {
                    return Err(format!("{x}: {announced} bytes announced, {n} written"));
                }
                let size = verif::size_var_i32(x);
                if size as usize != n {
                    return Err(format!("{x}: size {size} predicted, {n} bytes written"));
                }
            }
            ctx.distinct(step);
            ctx.steps(2 * step as usize);
            Ok(())
        });
    });
    // values one after the other in one buffer, read back in a row: all pairs and triples of lengths
    let edge: Vec<u32> = vec![0, 1, 127, 128, 255, 256, 16383, 16384, 65535, 2097151, 2097152, 268435455, 268435456, 0x7fffffff, 0x80000000, u32::MAX];
    let n = edge.len();
    ctx.part(&format!("{v}: streams of three values"), (n * n * n) as u64);
    ctx.par(n * n * n, |i| {
        ctx.case(|| format!("{v}/stream/{i}"), || {
            let vals = [edge[i % n], edge[i / n % n], edge[i / n / n]];
            let mut buf = vec![];
            let mut total = 0;
            for x in vals {
                total += verif::write_var_u32(x, &mut buf).map_err(|e| format!("{x}: {e:?}"))? as usize;
            }
            if total != buf.len() {
                return Err(format!("{vals:?}: {total} bytes announced, {} written", buf.len()));
            }
            let mut r = &buf[..];
            for x in vals {
                let b = verif::read_var_u32(&mut r).map_err(|e| format!("{x}: {e:?}"))?;
                if b != x {
                    return Err(format!("{vals:?}: {x} is read back as {b}"));
                }
            }
            if !r.is_empty() {
                return Err(format!("{vals:?}: {} bytes left", r.len()));
            }
            ctx.steps(6);
            ctx.state(H::new().u(i as u64).u(17).get());
            Ok(())
        });
    });
    ctx.sample(|| "write_var_u32(300), size_var_u32(300), read_var_u32([ac 02 ff 01])".to_string());
}

// ---------------------------------------------------------------- C18

type Cfg = (u8, u8, u8);
type Content = BTreeMap<(String, String), Cfg>;

fn read_schema(s: &Schema) -> R<Content> {
    let mut out = Content::new();
    let mut devs = BTreeSet::new();
    for (d, g) in s.get_devices() {
        if !devs.insert(d.to_string()) {
            return Err(format!("device {d:?} is listed twice"));
        }
        let mut any = false;
        for (m, t) in g.get_timeseries() {
            any = true;
            let c = (t.data_type.serialize(), t.encoding.serialize(), t.compression.serialize());
            if out.insert((d.to_string(), m.to_string()), c).is_some() {
                return Err(format!("sensor {d:?} {m:?} is listed twice"));
            }
        }
        if !any {
            return Err(format!("device {d:?} has no sensors"));
        }
    }
    Ok(out)
}

fn declared(s: &Ser) -> Cfg {
    (s.ty.code(), s.enc.code(), s.comp.code())
}

fn content_of(sch: &[Ser]) -> Content {
    sch.iter().map(|s| ((s.dev.to_string(), s.sen.to_string()), declared(s))).collect()
}

fn eq_content(got: &Content, want: &Content, what: &str) -> R<()> {
    if got == want {
        return Ok(());
    }
    Err(format!("{what} holds {got:?} instead of {want:?}"))
}

pub fn all_configs() -> Vec<(Ty, Enc, Comp)> {
    let mut v = vec![];
    for t in [Ty::I32, Ty::I64, Ty::F32] {
        for e in [Enc::Plain, Enc::Diff] {
            for c in [Comp::Raw, Comp::Snappy] {
                v.push((t, e, c));
            }
        }
    }
    v
}

const SENS: [Name; 2] = ["s1", "s2"];
const DEVS: [Name; 2] = ["d1", "d2"];

/// One letter of the builder alphabet
#[derive(Clone, Copy, Debug)]
enum B {
    /// builder, sensor, configuration
    Add(usize, usize, usize),
    /// builder, device
    Attach(usize, usize),
    Build,
}

fn alphabet() -> Vec<B> {
    let mut v = vec![];
    for b in 0..2 {
        for s in 0..2 {
            for c in 0..2 {
                v.push(B::Add(b, s, c));
            }
        }
        for d in 0..2 {
            v.push(B::Attach(b, d));
        }
    }
    v.push(B::Build);
    v
}

pub fn c18(ctx: &Ctx) {
    let v = if ctx.small { "small" } else { "real" };
    let cf = [(Ty::I32, Enc::Diff, Comp::Raw), (Ty::F32, Enc::Plain, Comp::Snappy)];
    let alpha = alphabet();
    let n = alpha.len();
    let depth = if ctx.small { 3 } else { ctx.pick(7, 8) };
    for len in 0..=depth {
        let total = n.pow(len as u32);
        ctx.part(&format!("{v}: builder sequences of length {len}"), total as u64);
        ctx.par(total, |idx| {
            ctx.case(|| format!("{v}/build/{len}/{idx}"), || {
                let mut i = idx;
                let mut seq = [B::Build; 8];
                for s in seq.iter_mut().take(len) {
                    *s = alpha[i % n];
                    i /= n;
                }
                let seq = &seq[..len];
                let mut dev = [DeviceBuilder::new(), DeviceBuilder::new()];
                let mut sch = TsFileSchemaBuilder::new();
                // model: configuration by sensor; attached content by device
                let mut md = [[None::<usize>; 2]; 2];
                let mut ms = [None::<[Option<usize>; 2]>; 2];
                let mut built: Vec<(Schema, [Option<[Option<usize>; 2]>; 2])> = vec![];
                let mut done = 0;
                for b in seq {
                    match *b {
                        B::Add(k, s, c) => {
                            dev[k].add(SENS[s], cf[c].0.api(), cf[c].1.api(), cf[c].2.api());
                            md[k][s] = Some(c);
                        }
                        B::Attach(k, d) => {
                            // a device without sensors cannot be built
                            if md[k] == [None, None] {
                                break;
                            }
                            sch.add(DEVS[d], dev[k].build());
                            ms[d] = Some(md[k]);
                        }
                        B::Build => built.push((sch.build(), ms)),
                    }
                    done += 1;
                }
                if done < len {
                    // not a legal sequence
                    return Ok(());
                }
                built.push((sch.build(), ms));
                ctx.steps(len + 1);
                let code = |x: &[Option<usize>; 2]| x.iter().fold(0u64, |a, o| a * 3 + o.map_or(0, |c| c as u64 + 1));
                let mut h = H::new();
                h.u(code(&md[0])).u(code(&md[1]));
                for m in ms {
                    h.u(m.map_or(99, |x| code(&x)));
                }
                ctx.state(h.get());
                for (k, (s, m)) in built.iter().enumerate() {
                    let mut want = Content::new();
                    for d in 0..2 {
                        for s in 0..2 {
                            if let Some(Some(c)) = m[d].map(|x| x[s]) {
                                let c = cf[c];
                                want.insert((DEVS[d].into(), SENS[s].into()), (c.0.code(), c.1.code(), c.2.code()));
                            }
                        }
                    }
                    eq_content(&read_schema(s)?, &want, &format!("schema {k} of {}", built.len()))
                        .map_err(|e| format!("{e} -- {seq:?}"))?;
                }
                if idx == total / 3 && len == depth {
                    ctx.sample(|| format!("{seq:?}"));
                }
                Ok(())
            });
        });
    }
    // every configuration after every other, and Schema::simple
    let cs = all_configs();
    let nc = cs.len();
    ctx.part(&format!("{v}: redeclarations"), (nc * nc) as u64);
    ctx.par(nc * nc, |q| {
        ctx.case(|| format!("{v}/redeclare/{q}"), || {
            let (a, b) = (cs[q % nc], cs[q / nc]);
            let mut d = DeviceBuilder::default();
            d.add("s", a.0.api(), a.1.api(), a.2.api()).add("other", a.0.api(), a.1.api(), a.2.api());
            let mut t = TsFileSchemaBuilder::default();
            t.add("d", d.build()).add("e", d.build());
            let first = t.build();
            d.add("s", b.0.api(), b.1.api(), b.2.api());
            t.add("d", d.build());
            let second = t.build();
            let w = |x: (Ty, Enc, Comp)| (x.0.code(), x.1.code(), x.2.code());
            let k = |d: &str, s: &str| (d.to_string(), s.to_string());
            let mut want: Content =
                [(k("d", "s"), w(a)), (k("d", "other"), w(a)), (k("e", "s"), w(a)), (k("e", "other"), w(a))].into_iter().collect();
            eq_content(&read_schema(&first)?, &want, "first schema")?;
            eq_content(&read_schema(&first.clone())?, &want, "copy of the first schema")?;
            want.insert(k("d", "s"), w(b));
            eq_content(&read_schema(&second)?, &want, "second schema")?;
            ctx.steps(8);
            ctx.state(H::new().u(q as u64).u(1818).get());
            let one = Schema::simple("d", "s", b.0.api(), b.1.api(), b.2.api());
            eq_content(&read_schema(&one)?, &[(k("d", "s"), w(b))].into_iter().collect(), "simple schema")
        });
    });
    // names
    let long = leak("n".repeat(70000));
    let names: Vec<Name> = vec!["", "a", "A", "a.b", "a b", "\u{e9}", "e\u{301}", "\u{1f600}", "root.\"x\"", "\0", long];
    let nn = names.len();
    ctx.part(&format!("{v}: names"), (nn * nn * nn) as u64);
    ctx.par(nn * nn * nn, |q| {
        ctx.case(|| format!("{v}/names/{q}"), || {
            let (d, s1, s2) = (names[q % nn], names[q / nn % nn], names[q / nn / nn]);
            let a = cs[q % nc];
            let b = cs[(q * 5 + 3) % nc];
            // the same name twice: the last declaration wins
            let sch = [ser(d, s1, a.0, a.1, a.2), ser(s1, s1, a.0, a.1, a.2), ser(d, s2, b.0, b.1, b.2), ser(s1, s2, b.0, b.1, b.2)];
            ctx.steps(6);
            ctx.state(H::new().u(q as u64).u(1819).get());
            eq_content(&read_schema(&build_schema(&sch))?, &content_of(&sch), "schema").map_err(|e| e.chars().take(600).collect())
        });
    });
    // every pair of the names that stress comparison, trimming, separators, normalisation
    let all = crate::hist::names();
    let na = all.len();
    ctx.part(&format!("{v}: pairs of unusual names"), (na * na) as u64);
    ctx.par(na * na, |q| {
        ctx.case(|| format!("{v}/pairs/{q}"), || {
            let (x, y) = (all[q % na], all[q / na]);
            let (a, b) = (cs[q % nc], cs[(q * 5 + 3) % nc]);
            let sch = [ser(x, y, a.0, a.1, a.2), ser(y, x, b.0, b.1, b.2), ser(x, "m", b.0, b.1, b.2), ser("m", y, a.0, a.1, a.2)];
            ctx.steps(6);
            ctx.state(H::new().u(q as u64).u(1821).get());
            eq_content(&read_schema(&build_schema(&sch))?, &content_of(&sch), "schema")?;
            let one = Schema::simple(x, y, a.0.api(), a.1.api(), a.2.api());
            eq_content(&read_schema(&one)?, &content_of(&sch[..1]), "simple schema")
        });
    });
    for (nd, ns) in [(1usize, 1usize), (1, 300), (300, 1), (30, 30), (257, 3)] {
        ctx.case(|| format!("{v}/grid/{nd}/{ns}"), || {
            let g: Vec<Ser> = grid(nd, ns);
            ctx.steps(g.len());
            eq_content(&read_schema(&build_schema_sorted(&g))?, &content_of(&g), "schema").map_err(|e| e.chars().take(400).collect())
        });
    }
    // codes
    ctx.part(&format!("{v}: codes"), 3 * 256);
    let tys: BTreeMap<u8, TSDataType> = [(1, TSDataType::INT32), (2, TSDataType::INT64), (3, TSDataType::FLOAT)].into_iter().collect();
    let encs: BTreeMap<u8, TSEncoding> = [(0, TSEncoding::PLAIN), (4, TSEncoding::TS2DIFF)].into_iter().collect();
    let comps: BTreeMap<u8, CompressionType> =
        [(0, CompressionType::UNCOMPRESSED), (1, CompressionType::SNAPPY)].into_iter().collect();
    for code in 0..=255u8 {
        ctx.case(|| format!("{v}/code/{code}"), || {
            ctx.steps(6);
            ctx.state(H::new().u(code as u64).u(18).get());
            match (TSDataType::try_from(code), tys.get(&code)) {
                (Ok(x), Some(w)) if x == *w && x.serialize() == code => {}
                (Err(_), None) => {}
                (got, want) => return Err(format!("data type {code}: {got:?} instead of {want:?}")),
            }
            match (TSEncoding::try_from(code), encs.get(&code)) {
                (Ok(x), Some(w)) if x == *w && x.serialize() == code => {}
                (Err(_), None) => {}
                (got, want) => return Err(format!("encoding {code}: {got:?} instead of {want:?}")),
            }
            match (CompressionType::try_from(code), comps.get(&code)) {
                (Ok(x), Some(w)) if x == *w && x.serialize() == code => {}
                (Err(_), None) => {}
                (got, want) => return Err(format!("compression {code}: {got:?} instead of {want:?}")),
            }
            Ok(())
        });
    }
    // the codes in files are those of what was declared
    ctx.part(&format!("{v}: codes in files"), (configs().len() * configs().len()) as u64);
    let wc = configs();
    let nw = wc.len();
    ctx.par(nw * nw, |q| {
        ctx.case(|| format!("{v}/file/{q}"), || {
            let (a, b) = (wc[q % nw], wc[q / nw]);
            let sch = [ser("d", "s1", a.0, a.1, a.2), ser("d", "s2", b.0, b.1, b.2)];
            let mut m = Model::new(&sch);
            let ops: Vec<Op> = (0..3)
                .flat_map(|i| {
                    sch.iter().map(move |s| Op::W(s.dev, s.sen, i, Val::small(s.ty, i * 7 - 3))).collect::<Vec<_>>()
                })
                .collect();
            for o in &ops {
                m.step(o);
            }
            let f = file_of(&sch, &ops)?;
            ctx.steps(ops.len());
            ctx.state(H::new().u(q as u64).u(1820).get());
            verify::round_trip(&f, &m)
        });
    });
}

// ---------------------------------------------------------------- C19

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Plan {
    Group(Vec<u8>),
    Series(Vec<u8>, Cfg),
}

fn be_str(c: &mut Cur) -> R<Vec<u8>> {
    let n = c.i32()?;
    if n < 0 {
        return Err(format!("string of {n} bytes"));
    }
    Ok(c.take(n as usize)?.to_vec())
}

/// Plans of one record's payload
fn plans(p: &[u8]) -> R<Vec<Plan>> {
    let mut c = Cur::new(p, 0);
    let mut out = vec![];
    while c.left() > 0 {
        match c.u8()? {
            3 => {
                let s = be_str(&mut c)?;
                c.i64()?; // index
                out.push(Plan::Group(s));
            }
            4 => {
                let s = be_str(&mut c)?;
                let cfg = (c.u8()?, c.u8()?, c.u8()?);
                let tag = c.i64()?;
                if tag != -1 {
                    return Err(format!("tag offset {tag}"));
                }
                for what in ["alias", "properties", "tags", "attributes"] {
                    let b = c.u8()?;
                    if b != 0 {
                        return Err(format!("{what}: {b}"));
                    }
                }
                c.i64()?; // index
                out.push(Plan::Series(s, cfg));
            }
            k => return Err(format!("plan type {k}")),
        }
    }
    Ok(out)
}

/// Records of a log, each with its plans
pub fn records(b: &[u8]) -> R<Vec<Vec<Plan>>> {
    let mut c = Cur::new(b, 0);
    let mut out = vec![];
    while c.left() > 0 {
        let n = c.i32()?;
        if n < 0 {
            return Err(format!("record of {n} bytes"));
        }
        let p = c.take(n as usize).map_err(|e| format!("record of {n} bytes: {e}"))?;
        let crc = c.i64()?;
        if crc != crc32(p) as i64 {
            return Err(format!("checksum {crc:x} instead of {:x}", crc32(p)));
        }
        out.push(plans(p)?);
    }
    Ok(out)
}

/// The log a schema must give
pub fn check_log(b: &[u8], group: &str, sch: &[Ser]) -> R<()> {
    let all: Vec<Plan> = records(b)?.concat();
    match all.first() {
        Some(Plan::Group(g)) if g == group.as_bytes() => {}
        p => return Err(format!("the log begins with {p:?} instead of the storage group {group:?}")),
    }
    let mut got = all[1..].to_vec();
    got.sort();
    let mut want: Vec<Plan> = sch
        .iter()
        .map(|s| Plan::Series(format!("{group}.{}.{}", s.dev, s.sen).into_bytes(), declared(s)))
        .collect();
    want.sort();
    if got != want {
        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        let mut e = format!("{} plans instead of {}; first difference: {:?} instead of {:?}", got.len(), want.len(), got.get(i), want.get(i));
        e = e.chars().take(1500).collect();
        return Err(e);
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum L {
    Group(usize),
    Series(usize, usize),
    Flush,
}

pub fn c19(ctx: &Ctx) {
    let v = if ctx.small { "small" } else { "real" };
    let cs = all_configs();
    let groups = ["root.sg", "root.\u{e9}"];
    let paths = ["root.sg.d1.s1", "root.sg.d1.s2", ""];
    let mut alpha = vec![L::Flush, L::Group(0), L::Group(1)];
    for p in 0..3 {
        alpha.push(L::Series(p, p * 5));
    }
    alpha.push(L::Series(0, 3));
    let n = alpha.len();
    let depth = if ctx.small { 4 } else { ctx.pick(7, 8) };
    for len in 0..=depth {
        let total = n.pow(len as u32);
        ctx.part(&format!("{v}: log histories of length {len}"), total as u64);
        ctx.par(total, |idx| {
            ctx.case(|| format!("{v}/log/{len}/{idx}"), || {
                let mut i = idx;
                let seq: Vec<L> = (0..len)
                    .map(|_| {
                        let l = alpha[i % n];
                        i /= n;
                        l
                    })
                    .collect();
                let mut log = sync::Log::new();
                let mut out: Vec<u8> = vec![];
                let mut pending: Vec<Plan> = vec![];
                let mut h = H::new();
                for (k, l) in seq.iter().chain([L::Flush].iter()).enumerate() {
                    match *l {
                        L::Group(g) => {
                            log.set_storage_group_plan(groups[g]).map_err(|e| format!("{e:?}"))?;
                            pending.push(Plan::Group(groups[g].into()));
                        }
                        L::Series(p, c) => {
                            let c = cs[c];
                            log.create_plan(paths[p], c.0.api(), c.1.api(), c.2.api()).map_err(|e| format!("{e:?}"))?;
                            pending.push(Plan::Series(paths[p].into(), (c.0.code(), c.1.code(), c.2.code())));
                        }
                        L::Flush => {
                            let at = out.len();
                            log.flush(&mut out).map_err(|e| format!("{e:?}"))?;
                            let r = records(&out[at..]).map_err(|e| format!("step {k}: {e} -- {seq:?}"))?;
                            let got = r.concat();
                            if r.len() > 1 || got != pending {
                                return Err(format!("step {k}: flush wrote {r:?} instead of {pending:?} -- {seq:?}"));
                            }
                            pending.clear();
                        }
                    }
                    h.u(pending.len() as u64);
                }
                records(&out)?;
                ctx.steps(len + 1);
                ctx.state(h.u(len as u64).b(&out).get());
                if idx == total / 3 && len == depth {
                    ctx.sample(|| format!("{seq:?}"));
                }
                Ok(())
            });
        });
    }
    // schemas: each configuration, names, sizes
    let long = leak("x".repeat(40000));
    let names: Vec<Name> = vec!["s1", "", "a.b", "\u{e9}", "\u{1f600}", "a b", "\u{7f}", long];
    let sgs: Vec<Name> = vec!["root.sg", "", "root.\u{e9}.\u{1f600}", "x", leak("g".repeat(300)), long];
    let (nn, ng, nc) = (names.len(), sgs.len(), cs.len());
    let total = nn * nn * ng * nc;
    ctx.part(&format!("{v}: logs of one series"), total as u64);
    ctx.par(total, |q| {
        ctx.case(|| format!("{v}/one/{q}"), || {
            let c = cs[q % nc];
            let q1 = q / nc;
            let (d, s, g) = (names[q1 % nn], names[q1 / nn % nn], sgs[q1 / nn / nn]);
            let sch = [ser(d, s, c.0, c.1, c.2)];
            ctx.steps(3);
            ctx.state(H::new().u(q as u64).u(19).get());
            let b = sync::write_mlog(g, build_schema(&sch)).map_err(|e| format!("{e:?}"))?;
            check_log(&b, g, &sch)
        });
    });
    // every length of path, so every length of record
    let lens = ctx.pick(1200, 6000);
    ctx.part(&format!("{v}: logs by length of the path"), lens as u64);
    ctx.par(lens, |n| {
        ctx.case(|| format!("{v}/length/{n}"), || {
            let d: String = "d".repeat(n);
            let c = cs[n % nc];
            let sch = [ser("\u{e9}", leak(d.clone()), c.0, c.1, c.2), ser(leak(d), "s", c.0, c.1, c.2)];
            ctx.steps(4);
            ctx.state(H::new().u(n as u64).u(191).get());
            let b = sync::write_mlog("root.sg", build_schema(&sch)).map_err(|e| format!("{e:?}"))?;
            check_log(&b, "root.sg", &sch)
        });
    });
    // logs whose flushes are large: every pair of sizes, as one plan or as many
    let sizes: Vec<usize> = [12usize, 15, 16, 20]
        .into_iter()
        .chain(if ctx.quick() { vec![] } else { vec![13, 14, 17, 18, 19, 21, 22, 23, 24] })
        .flat_map(|b| [(1 << b) - 40, (1 << b) - 1, 1 << b, (1 << b) + 1, (1 << b) + 40])
        .chain([0, 1])
        .collect();
    let ns = sizes.len();
    ctx.part(&format!("{v}: large flushes, one after the other"), (ns * ns * 4) as u64);
    ctx.par(ns * ns * 4, |q| {
        let (kind, a, b) = (q % 4, sizes[q / 4 % ns], sizes[q / 4 / ns]);
        ctx.case(|| format!("{v}/flushes/{q}"), || {
            let mut log = sync::Log::new();
            let mut out: Vec<u8> = vec![];
            for (k, size) in [a, b, 1, a].into_iter().enumerate() {
                let mut want = vec![];
                // one plan whose record has this size, or plans of about 4000 bytes that add up to it
                let mut left = size;
                while left > 0 {
                    let n = if kind < 2 { left } else { left.min(4000) };
                    left -= n;
                    let path = "p".repeat(n.saturating_sub(32));
                    if kind % 2 == 0 {
                        log.create_plan(&path, cs[k].0.api(), cs[k].1.api(), cs[k].2.api()).map_err(|e| format!("{e:?}"))?;
                        want.push(Plan::Series(path.into(), (cs[k].0.code(), cs[k].1.code(), cs[k].2.code())));
                    } else {
                        log.set_storage_group_plan(&path).map_err(|e| format!("{e:?}"))?;
                        want.push(Plan::Group(path.into()));
                    }
                }
                let at = out.len();
                log.flush(&mut out).map_err(|e| format!("{e:?}"))?;
                let got = records(&out[at..]).map_err(|e| format!("flush {k} of sizes {a}, {b}, 1, {a}: {e}"))?.concat();
                if got != want {
                    let same = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                    return Err(format!("flush {k} of sizes {a}, {b}, 1, {a}: {} plans instead of {}, the first {same} equal", got.len(), want.len()));
                }
            }
            ctx.steps(8);
            ctx.state(H::new().u(q as u64).u(193).get());
            Ok(())
        });
    });
    // several series: all subsets of a grid of devices and sensors with all rotations of the configurations
    let total = (1usize << 6) * nc;
    ctx.part(&format!("{v}: logs of schemas over a grid"), total as u64);
    ctx.par(total, |q| {
        ctx.case(|| format!("{v}/grid/{q}"), || {
            let (mask, r) = (q % 64, q / 64);
            let mut sch = vec![];
            for k in 0..6 {
                if mask >> k & 1 == 1 {
                    let c = cs[(k * 7 + r) % nc];
                    // devices and sensors whose paths coincide
                    let d = ["a", "a.b", "c"][k % 3];
                    let s = ["b.s", "s"][k / 3];
                    sch.push(ser(d, s, c.0, c.1, c.2));
                }
            }
            sch.sort_by_key(|s| s.dev);
            ctx.steps(sch.len() + 1);
            ctx.state(H::new().u(q as u64).u(192).get());
            let b = sync::write_mlog("root.sg", build_schema(&sch)).map_err(|e| format!("{e:?}"))?;
            check_log(&b, "root.sg", &sch)
        });
    });
    // pairs of unusual names, also beside the storage group's name
    let all = crate::hist::names();
    let na = all.len();
    ctx.part(&format!("{v}: logs with unusual names"), (na * na) as u64);
    ctx.par(na * na, |q| {
        ctx.case(|| format!("{v}/pairs/{q}"), || {
            let (d, g) = (all[q % na], all[q / na]);
            let c = cs[q % nc];
            let mut sch = vec![ser(d, g, c.0, c.1, c.2), ser(d, "s", c.0, c.1, c.2)];
            for other in [leak(format!("{g}.{d}")), leak(format!("{g}{d}"))] {
                if other != d {
                    sch.push(ser(other, d, c.0, c.1, c.2));
                }
            }
            sch.sort_by_key(|s| (s.dev, s.sen));
            sch.dedup_by(|a, b| (a.dev, a.sen) == (b.dev, b.sen));
            ctx.steps(sch.len() + 1);
            ctx.state(H::new().u(q as u64).u(194).get());
            let b = sync::write_mlog(g, build_schema(&sch)).map_err(|e| format!("{e:?}"))?;
            check_log(&b, g, &sch)
        });
    });
    for (nd, ns) in [(1usize, 1000usize), (1000, 1), (60, 60), (300, 3)] {
        ctx.part(&format!("{v}: logs of large schemas"), 1);
        ctx.case(|| format!("{v}/large/{nd}/{ns}"), || {
            let mut g = grid(nd, ns);
            for (i, s) in g.iter_mut().enumerate() {
                let c = cs[i % nc];
                (s.ty, s.enc, s.comp) = c;
            }
            let sg = name('g', nd);
            ctx.steps(g.len());
            let b = sync::write_mlog(sg, build_schema_sorted(&g)).map_err(|e| format!("{e:?}"))?;
            check_log(&b, sg, &g)
        });
    }
}
