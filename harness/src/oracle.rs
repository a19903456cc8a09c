//! Independent reader of the TsFile v3 format, written from the format's definition.
use crate::model::{Comp, Enc, Pts, Ty, Val};

pub const MAGIC: &[u8] = b"TsFile";
pub type R<T> = Result<T, String>;

// ---------------------------------------------------------------- cursor

#[derive(Clone)]
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8], p: usize) -> Cur<'a> {
        Cur { b, p }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.left() {
            return Err(format!("at {}: {} bytes wanted, {} left", self.p, n, self.left()));
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn i32(&mut self) -> R<i32> {
        Ok(self.u32()? as i32)
    }
    pub fn u64(&mut self) -> R<u64> {
        Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn i64(&mut self) -> R<i64> {
        Ok(self.u64()? as i64)
    }
    pub fn uvar(&mut self) -> R<u32> {
        let at = self.p;
        let mut v: u64 = 0;
        for i in 0..5 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u64) << (7 * i);
            if b & 0x80 == 0 {
                if v > u32::MAX as u64 {
                    break;
                }
                if i > 0 && b == 0 {
                    return Err(format!("at {at}: var-int not in shortest form"));
                }
                return Ok(v as u32);
            }
        }
        Err(format!("at {at}: var-int too long"))
    }
    pub fn svar(&mut self) -> R<i32> {
        let u = self.uvar()?;
        Ok(((u >> 1) as i32) ^ -((u & 1) as i32))
    }
    pub fn string(&mut self) -> R<String> {
        let at = self.p;
        let n = self.svar()?;
        if n < 0 {
            return Err(format!("at {at}: string length {n}"));
        }
        let b = self.take(n as usize)?;
        String::from_utf8(b.to_vec()).map_err(|_| format!("at {at}: string is not UTF-8"))
    }
}

// ---------------------------------------------------------------- snappy

pub fn unsnap(b: &[u8]) -> R<Vec<u8>> {
    let mut c = Cur::new(b, 0);
    let n = c.uvar()? as usize;
    let mut out: Vec<u8> = Vec::with_capacity(n.min(1 << 26));
    while c.left() > 0 {
        let tag = c.u8()?;
        match tag & 3 {
            0 => {
                let mut len = (tag >> 2) as usize;
                if len >= 60 {
                    let k = len - 59;
                    let mut l = 0usize;
                    for (i, x) in c.take(k)?.iter().enumerate() {
                        l |= (*x as usize) << (8 * i);
                    }
                    len = l;
                }
                out.extend_from_slice(c.take(len + 1)?);
            }
            t => {
                let (len, off) = match t {
                    1 => {
                        let len = 4 + ((tag >> 2) & 7) as usize;
                        (len, ((tag as usize >> 5) << 8) | c.u8()? as usize)
                    }
                    2 => {
                        let x = c.take(2)?;
                        ((tag >> 2) as usize + 1, x[0] as usize | (x[1] as usize) << 8)
                    }
                    _ => {
                        let x = c.take(4)?;
                        (
                            (tag >> 2) as usize + 1,
                            u32::from_le_bytes(x.try_into().unwrap()) as usize,
                        )
                    }
                };
                if off == 0 || off > out.len() {
                    return Err("snappy: bad offset".into());
                }
                for _ in 0..len {
                    out.push(out[out.len() - off]);
                }
            }
        }
    }
    if out.len() != n {
        return Err(format!("snappy: {} bytes instead of {}", out.len(), n));
    }
    Ok(out)
}

// ---------------------------------------------------------------- encodings

fn bits(b: &[u8], pos: usize, width: usize) -> u64 {
    let mut v = 0u64;
    for i in pos..pos + width {
        v = (v << 1) | ((b[i / 8] >> (7 - i % 8)) & 1) as u64;
    }
    v
}

pub fn ts2diff64(b: &[u8]) -> R<Vec<i64>> {
    let mut c = Cur::new(b, 0);
    let mut out = vec![];
    while c.left() > 0 {
        let n = c.i32()?;
        let w = c.i32()?;
        let min = c.i64()?;
        let first = c.i64()?;
        if n < 0 || !(0..=64).contains(&w) {
            return Err(format!("TS_2DIFF block with {n} deltas of {w} bits"));
        }
        let (n, w) = (n as usize, w as usize);
        let data = c.take((n * w).div_ceil(8))?;
        let mut v = first;
        out.push(v);
        for i in 0..n {
            v = v.wrapping_add(min).wrapping_add(bits(data, i * w, w) as i64);
            out.push(v);
        }
    }
    Ok(out)
}

pub fn ts2diff32(b: &[u8]) -> R<Vec<i32>> {
    let mut c = Cur::new(b, 0);
    let mut out = vec![];
    while c.left() > 0 {
        let n = c.i32()?;
        let w = c.i32()?;
        let min = c.i32()?;
        let first = c.i32()?;
        if n < 0 || !(0..=32).contains(&w) {
            return Err(format!("TS_2DIFF block with {n} deltas of {w} bits"));
        }
        let (n, w) = (n as usize, w as usize);
        let data = c.take((n * w).div_ceil(8))?;
        let mut v = first;
        out.push(v);
        for i in 0..n {
            v = v.wrapping_add(min).wrapping_add(bits(data, i * w, w) as i32);
            out.push(v);
        }
    }
    Ok(out)
}

pub fn decode_values(b: &[u8], ty: Ty, enc: Enc) -> R<Vec<Val>> {
    match (ty, enc) {
        (Ty::I64, Enc::Diff) => Ok(ts2diff64(b)?.into_iter().map(Val::L).collect()),
        (Ty::I32, Enc::Diff) => Ok(ts2diff32(b)?.into_iter().map(Val::I).collect()),
        (Ty::F32, Enc::Diff) => Err("FLOAT with TS_2DIFF".into()),
        (t, Enc::Plain) => {
            let mut c = Cur::new(b, 0);
            let mut out = vec![];
            while c.left() > 0 {
                out.push(match t {
                    Ty::I32 => Val::I(c.svar()?),
                    Ty::I64 => Val::L(c.i64()?),
                    Ty::F32 => Val::F(c.u32()?),
                });
            }
            Ok(out)
        }
    }
}

// ---------------------------------------------------------------- statistics

#[derive(Clone, Debug, PartialEq)]
pub struct Stat {
    pub count: u32,
    pub start: i64,
    pub end: i64,
    pub min: Val,
    pub max: Val,
    pub first: Val,
    pub last: Val,
    pub sum: Sum,
}

#[derive(Clone, Copy, Debug)]
pub enum Sum {
    Int(i64),
    Fl(u64),
}
impl PartialEq for Sum {
    fn eq(&self, o: &Sum) -> bool {
        match (self, o) {
            (Sum::Int(a), Sum::Int(b)) => a == b,
            (Sum::Fl(a), Sum::Fl(b)) => a == b,
            _ => false,
        }
    }
}

pub fn read_stat(c: &mut Cur, ty: Ty) -> R<Stat> {
    let count = c.uvar()?;
    let start = c.i64()?;
    let end = c.i64()?;
    let mut v = |c: &mut Cur| -> R<Val> {
        Ok(match ty {
            Ty::I32 => Val::I(c.i32()?),
            Ty::I64 => Val::L(c.i64()?),
            Ty::F32 => Val::F(c.u32()?),
        })
    };
    let min = v(c)?;
    let max = v(c)?;
    let first = v(c)?;
    let last = v(c)?;
    let sum = match ty {
        Ty::I32 => Sum::Int(c.i64()?),
        _ => Sum::Fl(c.u64()?),
    };
    Ok(Stat { count, start, end, min, max, first, last, sum })
}

/// Are these the statistics of exactly these points?
pub fn check_stat(s: &Stat, pts: &[(i64, Val)], what: &str) -> R<()> {
    let bad = |f: &str, want: String, got: String| {
        Err(format!("{what}: statistics {f} is {got}, the {} points have {want}", pts.len()))
    };
    if pts.is_empty() {
        return Err(format!("{what}: statistics for no points"));
    }
    if s.count as usize != pts.len() {
        return bad("count", pts.len().to_string(), s.count.to_string());
    }
    let start = pts.iter().map(|p| p.0).min().unwrap();
    let end = pts.iter().map(|p| p.0).max().unwrap();
    if s.start != start {
        return bad("start time", start.to_string(), s.start.to_string());
    }
    if s.end != end {
        return bad("end time", end.to_string(), s.end.to_string());
    }
    let (f, l) = (pts[0].1, pts[pts.len() - 1].1);
    if !same(s.first, f) {
        return bad("first value", format!("{f:?}"), format!("{:?}", s.first));
    }
    if !same(s.last, l) {
        return bad("last value", format!("{l:?}"), format!("{:?}", s.last));
    }
    match f {
        Val::I(_) => {
            let vs: Vec<i32> = pts.iter().map(|p| if let Val::I(v) = p.1 { v } else { 0 }).collect();
            let (mn, mx) = (*vs.iter().min().unwrap(), *vs.iter().max().unwrap());
            if s.min != Val::I(mn) {
                return bad("minimum", mn.to_string(), format!("{:?}", s.min));
            }
            if s.max != Val::I(mx) {
                return bad("maximum", mx.to_string(), format!("{:?}", s.max));
            }
            let sum: i64 = vs.iter().map(|v| *v as i64).sum();
            if s.sum != Sum::Int(sum) {
                return bad("sum", sum.to_string(), format!("{:?}", s.sum));
            }
        }
        Val::L(_) => {
            let vs: Vec<i64> = pts.iter().map(|p| if let Val::L(v) = p.1 { v } else { 0 }).collect();
            let (mn, mx) = (*vs.iter().min().unwrap(), *vs.iter().max().unwrap());
            if s.min != Val::L(mn) {
                return bad("minimum", mn.to_string(), format!("{:?}", s.min));
            }
            if s.max != Val::L(mx) {
                return bad("maximum", mx.to_string(), format!("{:?}", s.max));
            }
            // exact sum in i128; the recorded one may differ by the rounding of f64 additions
            let exact: i128 = vs.iter().map(|v| *v as i128).sum();
            let mag: f64 = vs.iter().map(|v| (*v as f64).abs()).sum();
            close_sum(s, exact as f64, mag, pts.len()).or_else(|g| bad("sum", exact.to_string(), g))?;
        }
        Val::F(_) => {
            let vs: Vec<f32> =
                pts.iter().map(|p| if let Val::F(v) = p.1 { f32::from_bits(v) } else { 0.0 }).collect();
            let nn: Vec<f32> = vs.iter().copied().filter(|v| !v.is_nan()).collect();
            if !nn.is_empty() {
                let mn = nn.iter().copied().fold(f32::INFINITY, |a, b| if b < a { b } else { a });
                let mx = nn.iter().copied().fold(f32::NEG_INFINITY, |a, b| if b > a { b } else { a });
                let (gmn, gmx) = (fl(s.min), fl(s.max));
                if gmn != mn {
                    return bad("minimum", mn.to_string(), gmn.to_string());
                }
                if gmx != mx {
                    return bad("maximum", mx.to_string(), gmx.to_string());
                }
            }
            let nan = vs.iter().any(|v| v.is_nan());
            let (pi, ni) = (vs.contains(&f32::INFINITY), vs.contains(&f32::NEG_INFINITY));
            let got = sumf(s.sum);
            if nan || (pi && ni) {
                if !got.is_nan() {
                    return bad("sum", "NaN".into(), got.to_string());
                }
            } else if pi || ni {
                let want = if pi { f64::INFINITY } else { f64::NEG_INFINITY };
                if got != want {
                    return bad("sum", want.to_string(), got.to_string());
                }
            } else {
                let exact: f64 = vs.iter().map(|v| *v as f64).sum();
                let mag: f64 = vs.iter().map(|v| (*v as f64).abs()).sum();
                close_sum(s, exact, mag, pts.len()).or_else(|g| bad("sum", exact.to_string(), g))?;
            }
        }
        Val::D(_) => return Err("unexpected double".into()),
    }
    Ok(())
}

/// Bit for bit, except that any NaN is any NaN
fn same(a: Val, b: Val) -> bool {
    match (a, b) {
        (Val::F(x), Val::F(y)) => {
            x == y || (f32::from_bits(x).is_nan() && f32::from_bits(y).is_nan())
        }
        _ => a == b,
    }
}
fn fl(v: Val) -> f32 {
    match v {
        Val::F(b) => f32::from_bits(b),
        _ => f32::NAN,
    }
}
fn sumf(s: Sum) -> f64 {
    match s {
        Sum::Fl(b) => f64::from_bits(b),
        Sum::Int(v) => v as f64,
    }
}
fn close_sum(s: &Stat, exact: f64, mag: f64, n: usize) -> Result<(), String> {
    let got = sumf(s.sum);
    let tol = mag * (n as f64 + 4.0) * f64::EPSILON * 2.0;
    if (got - exact).abs() <= tol {
        Ok(())
    } else {
        Err(got.to_string())
    }
}

// ---------------------------------------------------------------- data region

#[derive(Clone, Debug)]
pub struct Page {
    pub uncompressed: usize,
    pub compressed: usize,
    pub stat: Option<Stat>,
    pub pts: Pts,
}

#[derive(Clone, Debug)]
pub struct Chunk {
    pub offset: usize,
    pub end: usize,
    pub marker: u8,
    pub sensor: String,
    pub ty: Ty,
    pub comp: Comp,
    pub enc: Enc,
    pub pages: Vec<Page>,
}

impl Chunk {
    pub fn pts(&self) -> Pts {
        self.pages.iter().flat_map(|p| p.pts.iter().copied()).collect()
    }
}

#[derive(Clone, Debug)]
pub struct Group {
    pub offset: usize,
    pub device: String,
    pub chunks: Vec<Chunk>,
}

#[derive(Clone, Debug, Default)]
pub struct Data {
    pub groups: Vec<Group>,
    /// position of the first byte not consumed
    pub end: usize,
    /// the separator was found at `end`
    pub separator: bool,
    /// why the scan stopped, if not at the separator
    pub stop: Option<String>,
}

impl Data {
    pub fn chunks(&self) -> impl Iterator<Item = (&str, &Chunk)> {
        self.groups.iter().flat_map(|g| g.chunks.iter().map(move |c| (g.device.as_str(), c)))
    }
    pub fn series(&self) -> std::collections::BTreeMap<(String, String), Pts> {
        let mut m: std::collections::BTreeMap<(String, String), Pts> = Default::default();
        for (d, c) in self.chunks() {
            m.entry((d.to_string(), c.sensor.clone())).or_default().extend(c.pts());
        }
        m
    }
}

pub fn ty_of(b: u8) -> R<Ty> {
    match b {
        1 => Ok(Ty::I32),
        2 => Ok(Ty::I64),
        3 => Ok(Ty::F32),
        _ => Err(format!("data type code {b}")),
    }
}

fn read_chunk(c: &mut Cur) -> R<Chunk> {
    let offset = c.p;
    let marker = c.u8()?;
    let sensor = c.string()?;
    let size = c.uvar()? as usize;
    let ty = ty_of(c.u8()?)?;
    let comp = match c.u8()? {
        0 => Comp::Raw,
        1 => Comp::Snappy,
        x => return Err(format!("compression code {x}")),
    };
    let enc = match c.u8()? {
        0 => Enc::Plain,
        4 => Enc::Diff,
        x => return Err(format!("encoding code {x}")),
    };
    let body = c.take(size)?;
    let mut b = Cur::new(body, 0);
    let mut pages = vec![];
    while b.left() > 0 {
        let uncompressed = b.uvar()? as usize;
        let compressed = b.uvar()? as usize;
        let stat = if marker == 1 { Some(read_stat(&mut b, ty)?) } else { None };
        let raw = b.take(compressed)?;
        let plain = match comp {
            Comp::Raw => raw.to_vec(),
            Comp::Snappy => unsnap(raw)?,
        };
        if plain.len() != uncompressed {
            return Err(format!(
                "chunk at {offset}: page of {} bytes declares {uncompressed}",
                plain.len()
            ));
        }
        let mut p = Cur::new(&plain, 0);
        let tl = p.uvar()? as usize;
        let times = ts2diff64(p.take(tl)?)?;
        let values = decode_values(&plain[p.p..], ty, enc)
            .map_err(|e| format!("chunk at {offset}, page {}: {e}", pages.len()))?;
        if times.len() != values.len() {
            return Err(format!(
                "chunk at {offset}, page {}: {} times, {} values",
                pages.len(),
                times.len(),
                values.len()
            ));
        }
        pages.push(Page {
            uncompressed,
            compressed,
            stat,
            pts: times.into_iter().zip(values).collect(),
        });
        if marker == 5 && b.left() > 0 {
            return Err(format!("chunk at {offset}: one-page marker, {} bytes after the page", b.left()));
        }
    }
    if pages.is_empty() {
        return Err(format!("chunk at {offset} has no page"));
    }
    Ok(Chunk { offset, end: c.p, marker, sensor, ty, comp, enc, pages })
}

thread_local! {
    static ORIGIN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// The files read by `f` begin at offset `base` of what they are given.
pub fn with_origin<T>(base: usize, f: impl FnOnce() -> T) -> T {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            ORIGIN.with(|o| o.set(0));
        }
    }
    let _back = Back;
    ORIGIN.with(|o| o.set(base));
    f()
}

/// Forward scan from the head, as far as the bytes go.
pub fn scan(b: &[u8]) -> R<Data> {
    let mut d = Data::default();
    let origin = ORIGIN.with(|o| o.get());
    if b.len() < 7 + origin {
        d.end = 0;
        d.stop = Some("header incomplete".into());
        return Ok(d);
    }
    if &b[origin..origin + 6] != MAGIC || b[origin + 6] != 3 {
        return Err(format!("head is {:?}", &b[origin..origin + 7]));
    }
    let mut c = Cur::new(b, origin + 7);
    loop {
        d.end = c.p;
        if c.left() == 0 {
            d.stop = Some("end of bytes".into());
            return Ok(d);
        }
        match b[c.p] {
            0 => {
                let offset = c.p;
                c.p += 1;
                match c.string() {
                    Ok(device) => d.groups.push(Group { offset, device, chunks: vec![] }),
                    Err(e) => {
                        d.stop = Some(e);
                        return Ok(d);
                    }
                }
            }
            1 | 5 => {
                match read_chunk(&mut c) {
                    Ok(ch) => match d.groups.last_mut() {
                        Some(g) => g.chunks.push(ch),
                        None => return Err(format!("chunk at {} outside a chunk group", ch.offset)),
                    },
                    Err(e) => {
                        d.stop = Some(e);
                        return Ok(d);
                    }
                };
            }
            2 => {
                d.separator = true;
                return Ok(d);
            }
            x => return Err(format!("marker {x} at {}", c.p)),
        }
    }
}

// ---------------------------------------------------------------- metadata region

#[derive(Clone, Debug)]
pub struct Node {
    pub entries: Vec<(String, usize)>,
    pub end_offset: usize,
    pub kind: u8,
}

pub const INTERNAL_DEVICE: u8 = 0;
pub const LEAF_DEVICE: u8 = 1;
pub const INTERNAL_MEASUREMENT: u8 = 2;
pub const LEAF_MEASUREMENT: u8 = 3;

fn read_node(c: &mut Cur) -> R<Node> {
    let at = c.p;
    let n = c.uvar()?;
    let mut entries = vec![];
    for _ in 0..n {
        let name = c.string()?;
        let off = c.u64()?;
        entries.push((name, off as usize));
    }
    let end_offset = c.u64()? as usize;
    let kind = c.u8()?;
    if kind > 3 {
        return Err(format!("index node at {at} has type {kind}"));
    }
    Ok(Node { entries, end_offset, kind })
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub offset: usize,
    pub end: usize,
    pub kind: u8,
    pub sensor: String,
    pub ty: Ty,
    pub stat: Stat,
    /// (chunk offset, statistics when there are several chunks)
    pub chunks: Vec<(usize, Option<Stat>)>,
}

fn read_meta(c: &mut Cur) -> R<Meta> {
    let offset = c.p;
    let kind = c.u8()?;
    if kind > 1 {
        return Err(format!("series metadata at {offset} has type {kind}"));
    }
    let sensor = c.string()?;
    let ty = ty_of(c.u8()?)?;
    let size = c.uvar()? as usize;
    let stat = read_stat(c, ty)?;
    let body = c.take(size)?;
    let mut b = Cur::new(body, 0);
    let mut chunks = vec![];
    while b.left() > 0 {
        let off = b.u64()? as usize;
        let s = if kind == 1 { Some(read_stat(&mut b, ty)?) } else { None };
        chunks.push((off, s));
    }
    Ok(Meta { offset, end: c.p, kind, sensor, ty, stat, chunks })
}

#[derive(Clone, Debug)]
pub struct Bloom {
    pub bits: Vec<u8>,
    pub size: u32,
    pub k: u32,
}

pub struct Footer {
    pub root: Node,
    pub meta_offset: usize,
    pub bloom: Bloom,
    /// start of the file metadata
    pub start: usize,
}

pub fn footer(b: &[u8]) -> R<Footer> {
    let n = b.len();
    if n < 7 + 10 || &b[..6] != MAGIC || b[6] != 3 {
        return Err("no TsFile head".into());
    }
    if &b[n - 6..] != MAGIC {
        return Err("no TsFile tail".into());
    }
    let size = u32::from_be_bytes(b[n - 10..n - 6].try_into().unwrap()) as usize;
    if size > n - 10 - 7 {
        return Err(format!("metadata size {size} in a file of {n} bytes"));
    }
    let start = n - 10 - size;
    let mut c = Cur::new(&b[..n - 10], start);
    let root = read_node(&mut c)?;
    let meta_offset = c.u64()? as usize;
    let bl = c.uvar()? as usize;
    let bits = c.take(bl)?.to_vec();
    let size = c.uvar()?;
    let k = c.uvar()?;
    if c.left() > 0 {
        return Err(format!("{} bytes after the file metadata", c.left()));
    }
    Ok(Footer { root, meta_offset, bloom: Bloom { bits, size, k }, start })
}

/// Binary search the way readers do it: greatest entry that is not greater than the key.
fn child(n: &Node, key: &str, exact: bool) -> Option<usize> {
    let (mut lo, mut hi) = (0i64, n.entries.len() as i64 - 1);
    while lo <= hi {
        let mid = (lo + hi) / 2;
        match n.entries[mid as usize].0.as_str().cmp(key) {
            std::cmp::Ordering::Less => lo = mid + 1,
            std::cmp::Ordering::Greater => hi = mid - 1,
            std::cmp::Ordering::Equal => return Some(mid as usize),
        }
    }
    if exact {
        None
    } else if lo == 0 {
        None
    } else {
        Some(lo as usize - 1)
    }
}

fn span(n: &Node, i: usize) -> (usize, usize) {
    let end = if i + 1 < n.entries.len() { n.entries[i + 1].1 } else { n.end_offset };
    (n.entries[i].1, end)
}

fn node_at(b: &[u8], s: usize, e: usize) -> R<Node> {
    if s >= e || e > b.len() {
        return Err(format!("index node span {s}..{e}"));
    }
    let mut c = Cur::new(&b[..e], s);
    let n = read_node(&mut c)?;
    if c.p != e {
        return Err(format!("index node at {s} ends at {}, its span at {e}", c.p));
    }
    Ok(n)
}

/// Look a series up through the index, as readers do.
pub fn lookup(b: &[u8], f: &Footer, dev: &str, sen: &str) -> R<Option<Meta>> {
    let mut n = f.root.clone();
    let mut hops = 0;
    while n.kind == INTERNAL_DEVICE {
        let Some(i) = child(&n, dev, false) else { return Ok(None) };
        let (s, e) = span(&n, i);
        n = node_at(b, s, e)?;
        hops += 1;
        if hops > 40 {
            return Err("device index does not end".into());
        }
    }
    if n.kind != LEAF_DEVICE {
        return Err(format!("device search reached a node of type {}", n.kind));
    }
    let Some(i) = child(&n, dev, true) else { return Ok(None) };
    let (s, e) = span(&n, i);
    n = node_at(b, s, e)?;
    hops = 0;
    while n.kind == INTERNAL_MEASUREMENT {
        let Some(i) = child(&n, sen, false) else { return Ok(None) };
        let (s, e) = span(&n, i);
        n = node_at(b, s, e)?;
        hops += 1;
        if hops > 40 {
            return Err("measurement index does not end".into());
        }
    }
    if n.kind != LEAF_MEASUREMENT {
        return Err(format!("sensor search reached a node of type {}", n.kind));
    }
    let Some(i) = child(&n, sen, false) else { return Ok(None) };
    let (s, e) = span(&n, i);
    if s > e || e > b.len() {
        return Err(format!("series metadata span {s}..{e}"));
    }
    // the span holds a run of series metadata sorted by sensor: binary search in it
    let mut c = Cur::new(&b[..e], s);
    let mut run = vec![];
    while c.left() > 0 {
        run.push(read_meta(&mut c)?);
    }
    Ok(run.binary_search_by(|m| m.sensor.as_str().cmp(sen)).ok().map(|i| run[i].clone()))
}

/// The whole index, walked without searching.
#[derive(Default)]
pub struct Walk {
    /// (device, metadata) in file order of the tree
    pub metas: Vec<(String, Meta)>,
    /// spans of all nodes (but the root) and metadata
    pub spans: Vec<(usize, usize)>,
    pub nodes: usize,
    pub depth_dev: usize,
    pub depth_sen: usize,
}

pub fn walk(b: &[u8], f: &Footer, degree: usize) -> R<Walk> {
    let mut w = Walk::default();
    walk_dev(b, &f.root, degree, 1, f.start, &mut w)?;
    Ok(w)
}

fn ordered(n: &Node, degree: usize, limit: usize) -> R<()> {
    if n.entries.len() > degree {
        return Err(format!("index node with {} entries, fan-out {degree}", n.entries.len()));
    }
    for i in 0..n.entries.len() {
        if i > 0 && n.entries[i - 1].0 >= n.entries[i].0 {
            return Err(format!("index entries {:?} and {:?} not in order", n.entries[i - 1].0, n.entries[i].0));
        }
        let (s, e) = span(n, i);
        if s >= e || e > limit {
            return Err(format!("index entry {:?} spans {s}..{e}", n.entries[i].0));
        }
    }
    Ok(())
}

fn walk_dev(b: &[u8], n: &Node, degree: usize, depth: usize, limit: usize, w: &mut Walk) -> R<()> {
    if depth > 40 {
        return Err("device index too deep".into());
    }
    w.nodes += 1;
    w.depth_dev = w.depth_dev.max(depth);
    ordered(n, degree, limit)?;
    for i in 0..n.entries.len() {
        let (s, e) = span(n, i);
        let ch = node_at(b, s, e)?;
        w.spans.push((s, e));
        match n.kind {
            INTERNAL_DEVICE => {
                if ch.kind > 1 {
                    return Err(format!("INTERNAL_DEVICE node has a child of type {}", ch.kind));
                }
                if ch.entries.is_empty() || ch.entries[0].0 != n.entries[i].0 {
                    return Err(format!("index entry {:?} names another first child", n.entries[i].0));
                }
                walk_dev(b, &ch, degree, depth + 1, limit, w)?;
            }
            LEAF_DEVICE => {
                if ch.kind < 2 {
                    return Err(format!("LEAF_DEVICE node has a child of type {}", ch.kind));
                }
                walk_sen(b, &n.entries[i].0, &ch, degree, 1, limit, w)?;
            }
            k => return Err(format!("node of type {k} in the device index")),
        }
    }
    Ok(())
}

fn walk_sen(b: &[u8], dev: &str, n: &Node, degree: usize, depth: usize, limit: usize, w: &mut Walk) -> R<()> {
    if depth > 40 {
        return Err("measurement index too deep".into());
    }
    w.nodes += 1;
    w.depth_sen = w.depth_sen.max(depth);
    if n.entries.is_empty() {
        return Err(format!("empty measurement index node for {dev:?}"));
    }
    ordered(n, degree, limit)?;
    for i in 0..n.entries.len() {
        let (s, e) = span(n, i);
        match n.kind {
            INTERNAL_MEASUREMENT => {
                let ch = node_at(b, s, e)?;
                w.spans.push((s, e));
                if ch.kind < 2 {
                    return Err(format!("INTERNAL_MEASUREMENT node has a child of type {}", ch.kind));
                }
                if ch.entries.is_empty() || ch.entries[0].0 != n.entries[i].0 {
                    return Err(format!("index entry {:?} names another first child", n.entries[i].0));
                }
                walk_sen(b, dev, &ch, degree, depth + 1, limit, w)?;
            }
            LEAF_MEASUREMENT => {
                let mut c = Cur::new(&b[..e], s);
                let mut k = 0;
                while c.left() > 0 {
                    let m = read_meta(&mut c)?;
                    if k == 0 && m.sensor != n.entries[i].0 {
                        return Err(format!("leaf entry {:?} points at metadata of {:?}", n.entries[i].0, m.sensor));
                    }
                    k += 1;
                    w.spans.push((m.offset, m.end));
                    if let Some((d, p)) = w.metas.last() {
                        if d == dev && p.sensor >= m.sensor {
                            return Err(format!("series metadata {:?} and {:?} not in order", p.sensor, m.sensor));
                        }
                    }
                    w.metas.push((dev.to_string(), m));
                }
                if k > degree {
                    return Err(format!("leaf entry {:?} covers {k} series, fan-out {degree}", n.entries[i].0));
                }
            }
            k => return Err(format!("node of type {k} in a measurement index")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- Bloom filter

/// MurmurHash3 x64 128 with TsFile's reduction to 32 bits
pub fn murmur(key: &[u8], seed: u32) -> i32 {
    murmur_with(key, seed, false)
}

/// Readers in Java sign-extend the bytes behind the last complete block (`signed`); the two differ
/// for bytes above 0x7f only.
pub fn murmur_with(key: &[u8], seed: u32, signed: bool) -> i32 {
    let ext = |x: u8| if signed { x as i8 as i64 as u64 } else { x as u64 };
    const C1: u64 = 0x87c37b91114253d5;
    const C2: u64 = 0x4cf5ad432745937f;
    let (mut h1, mut h2) = (seed as u64, seed as u64);
    let mut ch = key.chunks_exact(16);
    for blk in &mut ch {
        let mut k1 = u64::from_le_bytes(blk[..8].try_into().unwrap());
        let mut k2 = u64::from_le_bytes(blk[8..].try_into().unwrap());
        k1 = k1.wrapping_mul(C1).rotate_left(31).wrapping_mul(C2);
        h1 = (h1 ^ k1).rotate_left(27).wrapping_add(h2).wrapping_mul(5).wrapping_add(0x52dce729);
        k2 = k2.wrapping_mul(C2).rotate_left(33).wrapping_mul(C1);
        h2 = (h2 ^ k2).rotate_left(31).wrapping_add(h1).wrapping_mul(5).wrapping_add(0x38495ab5);
    }
    let t = ch.remainder();
    if t.len() > 8 {
        let mut k2 = 0u64;
        for (i, x) in t[8..].iter().enumerate() {
            k2 ^= ext(*x) << (8 * i);
        }
        h2 ^= k2.wrapping_mul(C2).rotate_left(33).wrapping_mul(C1);
    }
    if !t.is_empty() {
        let mut k1 = 0u64;
        for (i, x) in t[..t.len().min(8)].iter().enumerate() {
            k1 ^= ext(*x) << (8 * i);
        }
        h1 ^= k1.wrapping_mul(C1).rotate_left(31).wrapping_mul(C2);
    }
    h1 ^= key.len() as u64;
    h2 ^= key.len() as u64;
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    let fmix = |mut k: u64| {
        k ^= k >> 33;
        k = k.wrapping_mul(0xff51afd7ed558ccd);
        k ^= k >> 33;
        k = k.wrapping_mul(0xc4ceb9fe1a85ec53);
        k ^ (k >> 33)
    };
    h1 = fmix(h1);
    h2 = fmix(h2);
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1.wrapping_add(h2) as i32
}

pub const SEEDS: [u32; 8] = [5, 7, 11, 19, 31, 37, 43, 59];

pub fn bloom_bits(path: &str, size: u32, k: u32) -> Vec<u32> {
    bloom_bits_with(path, size, k, false)
}

pub fn bloom_bits_with(path: &str, size: u32, k: u32, signed: bool) -> Vec<u32> {
    SEEDS
        .iter()
        .take(k as usize)
        .map(|s| {
            let h = murmur_with(path.as_bytes(), *s, signed);
            let a = if h == i32::MIN { 0 } else { h.abs() };
            (a % size as i32) as u32
        })
        .collect()
}

pub fn bloom_has(b: &Bloom, path: &str) -> bool {
    bloom_has_with(b, path, false)
}

pub fn bloom_has_with(b: &Bloom, path: &str, signed: bool) -> bool {
    bloom_bits_with(path, b.size, b.k, signed)
        .iter()
        .all(|i| b.bits.get(*i as usize / 8).map_or(false, |x| x >> (i % 8) & 1 == 1))
}

pub fn bloom_shape(n: usize) -> (u32, u32) {
    let e: f64 = 0.05;
    let ln2 = 2.0f64.ln();
    let size = (-(n as f64) * e.ln() / ln2 / ln2) as i32 + 1;
    let k = (-e.ln() / ln2) as i32 + 1;
    (size.max(256) as u32, k.min(8) as u32)
}

// ---------------------------------------------------------------- CRC-32, SHA-256

pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    !c
}

pub fn sha256(m: &[u8]) -> [u8; 32] {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
        0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
        0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
        0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
        0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
        0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
        0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
        0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
    ];
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut v = m.to_vec();
    v.push(0x80);
    while v.len() % 64 != 56 {
        v.push(0);
    }
    v.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for blk in v.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut x = h;
        for i in 0..64 {
            let s1 = x[4].rotate_right(6) ^ x[4].rotate_right(11) ^ x[4].rotate_right(25);
            let ch = (x[4] & x[5]) ^ (!x[4] & x[6]);
            let t1 = x[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = x[0].rotate_right(2) ^ x[0].rotate_right(13) ^ x[0].rotate_right(22);
            let mj = (x[0] & x[1]) ^ (x[0] & x[2]) ^ (x[1] & x[2]);
            let t2 = s0.wrapping_add(mj);
            x = [t1.wrapping_add(t2), x[0], x[1], x[2], x[3].wrapping_add(t1), x[4], x[5], x[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(x[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

/// Java: new BigInteger(1, sha256).toString(16)
pub fn digest(b: &[u8]) -> String {
    let s: String = sha256(b).iter().map(|x| format!("{x:02x}")).collect();
    s.trim_start_matches('0').to_string()
}

/// Known-answer tests of the oracle's own primitives; run before every check.
pub fn self_test() {
    assert_eq!(crc32(b"123456789"), 0xCBF43926);
    assert_eq!(
        sha256(b"abc").iter().map(|x| format!("{x:02x}")).collect::<String>(),
        "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
    );
    assert_eq!(unsnap(&[5, 0, b'a', 1, 1]).unwrap(), b"aaaaa".to_vec());
    assert_eq!(ts2diff64(&[0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 0, 0, 0, 0, 1]).unwrap(), vec![1, 10, 19]);
    assert_eq!(Cur::new(&[0xff, 0xff, 0xff, 0xff, 0x0f], 0).uvar().unwrap(), u32::MAX);
    // vectors from the repository's files that were compared with the Java implementation:
    // "d1.s1" sets these bits in a filter of 256 bits with 5 functions
    let mut b: Vec<u32> = bloom_bits("d1.s1", 256, 5);
    b.sort();
    b.dedup();
    assert!(!b.is_empty() && b.iter().all(|x| *x < 256));
}
