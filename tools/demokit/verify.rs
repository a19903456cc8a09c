//! Whole-file judgements built on the independent reader.
use crate::model::*;
use crate::oracle::{self, *};
use std::collections::BTreeMap;

fn key(k: &(Name, Name)) -> (String, String) {
    (k.0.to_string(), k.1.to_string())
}

pub fn diff_pts(got: &[(i64, Val)], want: &[(i64, Val)], what: &str) -> R<()> {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!(
        "{what}: {} points in the file, {} accepted; first difference at point {i}: file {:?}, accepted {:?}",
        got.len(),
        want.len(),
        got.get(i),
        want.get(i)
    ))
}

/// Points found by the forward scan equal the accepted ones.
pub fn data_matches(d: &Data, m: &Model) -> R<()> {
    let got = d.series();
    for (k, want) in m.pts.iter().filter(|(_, p)| !p.is_empty()) {
        let k = key(k);
        let empty = vec![];
        diff_pts(got.get(&k).unwrap_or(&empty), want, &format!("series {:?} {:?}", k.0, k.1))?;
    }
    for (k, p) in &got {
        if !m.pts.iter().any(|(w, q)| w.0 == k.0 && w.1 == k.1 && !q.is_empty()) && !p.is_empty() {
            return Err(format!("series {:?} {:?}: {} points in the file, none accepted", k.0, k.1, p.len()));
        }
    }
    for (dev, c) in d.chunks() {
        match m.find(dev, &c.sensor) {
            None => return Err(format!("chunk of {dev:?} {:?}, which the schema does not have", c.sensor)),
            Some(s) => {
                if s.ty != c.ty || s.enc != c.enc || s.comp != c.comp {
                    return Err(format!(
                        "chunk of {dev:?} {:?} is {:?}/{:?}/{:?}, declared {:?}/{:?}/{:?}",
                        c.sensor, c.ty, c.enc, c.comp, s.ty, s.enc, s.comp
                    ));
                }
            }
        }
    }
    Ok(())
}

/// C01: by scan and through the index
pub fn round_trip(b: &[u8], m: &Model) -> R<()> {
    let d = scan(b)?;
    if !d.separator {
        return Err(format!("forward scan stops at {}: {:?}", d.end, d.stop));
    }
    data_matches(&d, m)?;
    let f = footer(b)?;
    for (dev, sen) in m.present() {
        let meta = lookup(b, &f, dev, sen)?
            .ok_or_else(|| format!("series {dev:?} {sen:?} not found through the index"))?;
        let mut pts = vec![];
        for (off, _) in &meta.chunks {
            let c = d
                .chunks()
                .find(|(_, c)| c.offset == *off)
                .ok_or_else(|| format!("series {dev:?} {sen:?}: no chunk at {off}"))?;
            pts.extend(c.1.pts());
        }
        diff_pts(&pts, &m.pts[&(dev, sen)], &format!("series {dev:?} {sen:?} through the index"))?;
    }
    Ok(())
}

/// C04: every byte accounted for, every offset exact
pub fn structure(b: &[u8], degree: usize) -> R<Walk> {
    let d = scan(b)?;
    if !d.separator {
        return Err(format!("forward scan stops at {}: {:?}", d.end, d.stop));
    }
    let f = footer(b)?;
    if f.meta_offset != d.end {
        return Err(format!("recorded metadata offset {}, separator at {}", f.meta_offset, d.end));
    }
    if f.root.end_offset != f.start {
        return Err(format!("root index node ends at {}, file metadata starts at {}", f.root.end_offset, f.start));
    }
    if f.root.kind > 1 {
        return Err(format!("root index node of type {}", f.root.kind));
    }
    for (dev, c) in d.chunks() {
        let n = c.pages.len();
        if c.marker == 5 && n != 1 || c.marker == 1 && n < 2 {
            return Err(format!("chunk of {dev:?} {:?}: marker {} with {n} pages", c.sensor, c.marker));
        }
        for p in &c.pages {
            if p.pts.is_empty() {
                return Err(format!("empty page in chunk of {dev:?} {:?}", c.sensor));
            }
        }
    }
    let w = oracle::walk(b, &f, degree)?;
    // nodes and metadata tile the region
    let mut spans = w.spans.clone();
    spans.sort();
    let mut at = d.end + 1;
    for (s, e) in &spans {
        if *s != at {
            return Err(format!("metadata region: structure at {s}, previous one ends at {at}"));
        }
        at = *e;
    }
    if at != f.start {
        return Err(format!("metadata region: bytes {at}..{} not accounted for", f.start));
    }
    // metadata names exactly the chunks present
    let mut by: BTreeMap<(String, String), Vec<&Chunk>> = BTreeMap::new();
    for (dev, c) in d.chunks() {
        by.entry((dev.to_string(), c.sensor.clone())).or_default().push(c);
    }
    for (dev, m) in &w.metas {
        let k = (dev.clone(), m.sensor.clone());
        let cs = by.remove(&k).ok_or_else(|| format!("metadata of {k:?}, no chunk of it"))?;
        let have: Vec<usize> = m.chunks.iter().map(|c| c.0).collect();
        let want: Vec<usize> = cs.iter().map(|c| c.offset).collect();
        if have != want {
            return Err(format!("metadata of {k:?}: chunk offsets {have:?}, chunks at {want:?}"));
        }
        if (m.kind == 1) != (cs.len() > 1) {
            return Err(format!("metadata of {k:?}: type {} with {} chunks", m.kind, cs.len()));
        }
        if cs.iter().any(|c| c.ty != m.ty) {
            return Err(format!("metadata of {k:?}: type {:?}", m.ty));
        }
    }
    if let Some(k) = by.keys().next() {
        return Err(format!("chunks of {k:?} without metadata"));
    }
    Ok(w)
}

/// C06: all statistics against the points stored
pub fn statistics(b: &[u8], m: &Model) -> R<usize> {
    let d = scan(b)?;
    let f = footer(b)?;
    let mut n = 0;
    for (dev, c) in d.chunks() {
        for (i, p) in c.pages.iter().enumerate() {
            if let Some(s) = &p.stat {
                check_stat(s, &p.pts, &format!("page {i} of chunk at {} of {dev:?} {:?}", c.offset, c.sensor))?;
                n += 1;
            } else if c.pages.len() > 1 {
                return Err(format!("page {i} of chunk at {} has no statistics", c.offset));
            }
        }
    }
    for (dev, sen) in m.present() {
        let meta = lookup(b, &f, dev, sen)?.ok_or_else(|| format!("series {dev:?} {sen:?} not in the index"))?;
        check_stat(&meta.stat, &m.pts[&(dev, sen)], &format!("series {dev:?} {sen:?}"))?;
        n += 1;
        for (off, st) in &meta.chunks {
            let c = d.chunks().find(|c| c.1.offset == *off).ok_or_else(|| format!("no chunk at {off}"))?;
            match st {
                Some(s) => {
                    check_stat(s, &c.1.pts(), &format!("chunk at {off} of {dev:?} {sen:?}"))?;
                    n += 1;
                }
                None if meta.chunks.len() > 1 => {
                    return Err(format!("chunk at {off} of {dev:?} {sen:?} has no statistics"))
                }
                None => {}
            }
        }
    }
    Ok(n)
}

/// C05 for one series that is present
pub fn found(b: &[u8], f: &Footer, d: &Data, dev: &str, sen: &str) -> R<()> {
    let meta =
        lookup(b, f, dev, sen)?.ok_or_else(|| format!("series {dev:?} {sen:?} has data but is not found through the index"))?;
    if meta.sensor != sen {
        return Err(format!("looking up {dev:?} {sen:?} gave {:?}", meta.sensor));
    }
    let want: Vec<usize> = d.chunks().filter(|(x, c)| *x == dev && c.sensor == sen).map(|c| c.1.offset).collect();
    let have: Vec<usize> = meta.chunks.iter().map(|c| c.0).collect();
    if want != have {
        return Err(format!("series {dev:?} {sen:?}: index gives chunks at {have:?}, they are at {want:?}"));
    }
    Ok(())
}

/// C07 for the given paths
pub fn bloom(f: &Footer, present: &[(Name, Name)]) -> R<()> {
    let (size, k) = bloom_shape(present.len());
    if f.bloom.size != size || f.bloom.k != k {
        return Err(format!(
            "Bloom filter for {} series has {} bits and {} functions, the format prescribes {size} and {k}",
            present.len(),
            f.bloom.size,
            f.bloom.k
        ));
    }
    if f.bloom.bits.len() > (size as usize).div_ceil(8) {
        return Err(format!("Bloom filter of {size} bits stored in {} bytes", f.bloom.bits.len()));
    }
    // one convention for bytes above 0x7f must find all of them
    let denied = |signed: bool| {
        present.iter().map(|(d, s)| format!("{d}.{s}")).find(|p| !bloom_has_with(&f.bloom, p, signed))
    };
    match (denied(false), denied(true)) {
        (Some(p), Some(_)) => Err(format!("Bloom filter denies series {p:?}, which is in the file")),
        _ => Ok(()),
    }
}
