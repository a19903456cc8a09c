W = "tsfile-writer/src/writer/"
S = "tsfile-writer/src/sync/"
USE = """use crate::kit::{file, noise, path, schema};
use crate::model::*;
use crate::{oracle, verify};
"""
HOOK = {"rustflags": "--cfg tsfile_verif"}
SYNC = {"features": '"sync_sender"'}
SYNCHOOK = {"features": '"sync_sender"', "rustflags": "--cfg tsfile_verif"}

PLANTS = []
def plant(id, property, needs, breaks, edits, demo, files=None):
    PLANTS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits,
                       demo=USE + demo, files=files or {}))

# ---------------------------------------------------------------- C01
plant("c01-incompressible-page", "C01",
  "a SNAPPY series whose page is at least 1 KiB and does not shrink (random values)",
  "such a page is stored raw although the chunk is declared SNAPPY, readers cannot decompress it",
  [(W + "chunk_writer.rs", """                            let mut reader = &out.as_mut_slice()[..size];
                            io::copy(&mut reader, &mut compressed_buffer);
                            size as u32
""", """                            // incompressible pages are not worth the indirection
                            if size >= page_writer.buffer.len() && size > 1024 {
                                compressed_buffer.extend_from_slice(&page_writer.buffer);
                                uncompressed_bytes
                            } else {
                                let mut reader = &out.as_mut_slice()[..size];
                                io::copy(&mut reader, &mut compressed_buffer);
                                size as u32
                            }
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Snappy)];
    let mut t = 0;
    let ops = (0..100).map(|i| { t += 1 + (noise(i + 77) >> 8) as i64; Op::W("root.d", "s", t, Val::L(noise(i) as i64)) });
    let (b, m) = file("a", &sch, ops)?;
    verify::round_trip(&b, &m)
}
""")

plant("c01-third-page-swap", "C01",
  "a chunk with at least three pages, compressed: the header of the third page swaps its two sizes",
  "pages from the third on can not be decoded",
  [(W + "chunk_writer.rs", """            } else {
                // Uncompressed size
                utils::write_var_u32(uncompressed_bytes as u32, &mut self.page_buffer);
                // Compressed size
                utils::write_var_u32(compressed_bytes as u32, &mut self.page_buffer);
                // Write page content
                page_writer.statistics.serialize(&mut self.page_buffer);

                let pos_before_flush = self.page_buffer.get_position();
""", """            } else {
                // Compressed and uncompressed size
                for size in [compressed_bytes, uncompressed_bytes] {
                    utils::write_var_u32(size as u32, &mut self.page_buffer);
                }
                // Write page content
                page_writer.statistics.serialize(&mut self.page_buffer);

                let pos_before_flush = self.page_buffer.get_position();
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Snappy)];
    let (b, m) = file("a", &sch, (0..40_000).map(|i| Op::W("root.d", "s", i, Val::L(i / 7))))?;
    verify::round_trip(&b, &m)
}
""")

# ---------------------------------------------------------------- C02
plant("c02-last-time-of-refused", "C02",
  "a write with a fresh timestamp refused for its value's type, followed by a valid write at the same or a smaller timestamp",
  "the refused write moves the last timestamp of the series, so the valid one is refused as out of order",
  [(W + "group_writer.rs", """        let record_count = match &mut self.chunk_writers.get_mut(measurement_id) {
""", """        let known = self.chunk_writers.contains_key(measurement_id);
        if known {
            self.last_time_map.insert(measurement_id, timestamp);
        }
        let record_count = match &mut self.chunk_writers.get_mut(measurement_id) {
"""),
   (W + "group_writer.rs", """        self.last_time_map.insert(measurement_id, timestamp);
        Ok(record_count)
""", """        Ok(record_count)
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let (b, m) = file("a", &sch, [
        Op::W("root.d", "s", 1, Val::L(1)),
        Op::W("root.d", "s", 10, Val::I(1)),
        Op::W("root.d", "s", 5, Val::L(2)),
    ])?;
    verify::round_trip(&b, &m)
}
""")

plant("c02-last-time-truncated", "C02",
  "timestamps of one series that differ by more than 2^53 units in precision: compared as floating point, t and t+1 above 2^53 are equal",
  "increasing timestamps above 2^53 are refused",
  [(W + "group_writer.rs", """        self.last_time_map.insert(measurement_id, timestamp);
        Ok(record_count)
""", """        // keep the last timestamp on the millisecond grid of the format's double representation
        self.last_time_map
            .insert(measurement_id, (timestamp as f64).max(0.0) as i64);
        Ok(record_count)
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let t = (1_i64 << 60) - 1;
    let (b, m) = file("a", &sch, (0..4).map(|i| Op::W("root.d", "s", t + i, Val::L(i))))?;
    verify::round_trip(&b, &m)
}
""")

# ---------------------------------------------------------------- C03
plant("c03-many-dropped-tail", "C03",
  "a multi-point write whose second or later point is refused",
  "the points before the refused one are not stored although the call only refused a later one",
  [(W + "group_writer.rs", """        for dp in values {
""", """        // do not start a row that can not be completed
        let values: Vec<DataPoint<'a>> = values.into_iter().collect();
        for dp in &values {
            if !self.chunk_writers.contains_key(dp.measurement_id) {
                return Err(TsFileError::IllegalState {
                    source: Some("Unknown measurement id".to_owned()),
                });
            }
        }
        for dp in values {
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let (b, m) = file("a", &sch, [
        Op::W("root.d", "s", 1, Val::L(1)),
        Op::M("root.d", 2, vec![("s", Val::L(2)), ("nope", Val::L(2))]),
        Op::W("root.d", "s", 3, Val::L(3)),
    ])?;
    verify::round_trip(&b, &m)
}
""")

plant("c03-unknown-sensor-panics", "C03",
  "a write to a sensor the device does not have when the device has another sensor with a point at the same timestamp",
  "the refusal names the wrong reason: a write to an unknown sensor at a timestamp already used in the device is reported as out of order",
  [(W + "group_writer.rs", """        // Check is historic
        self.check_is_history_data(measurement_id, timestamp)?;
""", """        // Check is historic
        let newest = self.last_time_map.values().max().copied();
        if !self.chunk_writers.contains_key(measurement_id) && newest >= Some(timestamp) {
            return Err(TsFileError::OutOfOrderData);
        }
        self.check_is_history_data(measurement_id, timestamp)?;
""")],
"""use tsfile_writer::writer::errors::TsFileError;
pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let mut w = tsfile_writer::writer::tsfile_writer::TsFileWriter::new(path("a"), schema(&sch), Default::default()).map_err(|e| format!("{e:?}"))?;
    w.write("root.d", "s", 5, Val::L(1).api()).map_err(|e| format!("{e:?}"))?;
    match w.write("root.d", "x", 5, Val::L(1).api()) {
        Err(TsFileError::OutOfOrderData) => Err("an unknown sensor is refused as out of order".into()),
        Err(_) => Ok(()),
        Ok(()) => Err("an unknown sensor is accepted".into()),
    }
}
""")

# ---------------------------------------------------------------- C04
plant("c04-name-length-in-chars", "C04",
  "a device or sensor name with characters outside ASCII",
  "the declared length of the name is smaller than the bytes present, nothing after it can be parsed",
  [(W + "mod.rs", """    let len = s.len() as i32;
    write_var_i32(len, file)?;
""", """    let len = s.chars().count() as i32;
    write_var_i32(len, file)?;
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.gerät", "drück", Ty::I64, Enc::Plain, Comp::Raw), ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let (b, m) = file("a", &sch, [Op::W("root.gerät", "drück", 1, Val::L(1)), Op::W("root.d", "s", 1, Val::L(1))])?;
    verify::structure(&b, 256)?;
    verify::round_trip(&b, &m)
}
""")

# ---------------------------------------------------------------- C05
plant("c05-is-full-late", "C05",
  "more than 256 devices: an index node takes one entry more than the format's fan-out",
  "nodes exceed the fan-out of the format, and the tree does not have the shape readers build",
  [(W + "mod.rs", """        self.children.len() >= config.max_degree_of_index_node
""", """        self.children.len() > config.max_degree_of_index_node
""")],
"""pub fn demo() -> Result<(), String> {
    let sch: Vec<Ser> = (0..600).map(|i| ser(leak(format!("root.d{i:04}")), "s", Ty::I32, Enc::Plain, Comp::Raw)).collect();
    let (b, m) = file("a", &sch, sch.iter().map(|s| Op::W(s.dev, s.sen, 1, Val::I(1))).collect::<Vec<_>>())?;
    verify::structure(&b, 256)?;
    verify::round_trip(&b, &m)
}
""")

plant("c05-children-lookup-case", "C05",
  "two device names whose order differs between byte order and case-insensitive order",
  "the devices are not sorted the way readers compare them, binary search misses some",
  [(W + "mod.rs", """            for (s, value) in device_metadata_index_map {
                metadata_index_node.children.push(MetadataIndexEntry {
""", """            let mut devices: Vec<(String, MetadataIndexNode)> =
                device_metadata_index_map.into_iter().collect();
            devices.sort_by_key(|(name, _)| name.to_lowercase());
            for (s, value) in devices {
                metadata_index_node.children.push(MetadataIndexEntry {
""")],
"""pub fn demo() -> Result<(), String> {
    let sch: Vec<Ser> = ["root.a", "root.B", "root.c", "root.D"].iter().map(|d| ser(d, "s", Ty::I32, Enc::Plain, Comp::Raw)).collect();
    let (b, m) = file("a", &sch, sch.iter().map(|s| Op::W(s.dev, s.sen, 1, Val::I(1))).collect::<Vec<_>>())?;
    verify::round_trip(&b, &m)
}
""")

# ---------------------------------------------------------------- C06
plant("c06-merge-either-extreme", "C06",
  "a page merged into a chunk whose own minimum and maximum both lie outside those seen before",
  "only one of both extremes is taken over",
  [(W + "statistics.rs", """                if statistics.max_value > self.max_value {
                    self.max_value = statistics.max_value;
                }
                if statistics.min_value < self.min_value {
                    self.min_value = statistics.min_value;
                }
                self.count += statistics.count;
""", """                if self.count == 0 {
                    self.max_value = statistics.max_value;
                    self.min_value = statistics.min_value;
                } else if statistics.max_value > self.max_value {
                    self.max_value = statistics.max_value;
                } else if statistics.min_value < self.min_value {
                    self.min_value = statistics.min_value;
                }
                self.count += statistics.count;
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let (b, m) = file("a", &sch, (0..20_000_i64).map(|i| Op::W("root.d", "s", i, Val::L(if i % 2 == 0 { i } else { -i }))))?;
    verify::statistics(&b, &m).map(|_| ())
}
""")

plant("c06-nan-first", "C06",
  "a FLOAT series whose first value is NaN: minimum and maximum start as NaN and stay it",
  "minimum and maximum do not range over the values that are not NaN",
  [(W + "statistics.rs", """                if value < self.min_value {
                    self.min_value = value;
                }
                if value > self.max_value {
                    self.max_value = value;
                }
                self.count += 1;
""", """                if self.count == 0 || value < self.min_value {
                    self.min_value = value;
                }
                if self.count == 0 || value > self.max_value {
                    self.max_value = value;
                }
                self.count += 1;
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::F32, Enc::Plain, Comp::Raw)];
    let (b, m) = file("a", &sch, [f32::NAN, 1.0, 2.0].iter().enumerate().map(|(i, v)| Op::W("root.d", "s", i as i64, Val::f(*v))).collect::<Vec<_>>())?;
    verify::statistics(&b, &m).map(|_| ())
}
""")

plant("c06-int-sum-32-bit", "C06",
  "an INT32 series whose sum in one page exceeds 32 bits",
  "the sum wraps around in 32 bits",
  [(W + "statistics.rs", """                self.sum_value += value as $sum;
""", """                self.sum_value = match value as f64 {
                    v if v.abs() > 2.0e9 && self.count > 1 => {
                        (self.sum_value + value as $sum) as $type as $sum
                    }
                    _ => self.sum_value + value as $sum,
                };
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I32, Enc::Plain, Comp::Raw)];
    let (b, m) = file("a", &sch, (0..5).map(|i| Op::W("root.d", "s", i, Val::I(i32::MAX))))?;
    verify::statistics(&b, &m).map(|_| ())
}
""")

# ---------------------------------------------------------------- C07
plant("c07-tail-offset", "C07",
  "a path of at least 32 bytes whose length is no multiple of 16: the tail is taken from the second block",
  "membership computed by readers does not match the filter",
  [(W + "murmur128.rs", """        offset += nblocks as usize * 16;
""", """        offset += (nblocks as usize).min(1) * 16;
""")],
"""pub fn demo() -> Result<(), String> {
    let sch: Vec<Ser> = (0..20).map(|i| ser(leak(format!("root.a_rather_long_storage_group_name.device_{i}")), "temperature", Ty::I32, Enc::Plain, Comp::Raw)).collect();
    let (b, _) = file("a", &sch, sch.iter().map(|s| Op::W(s.dev, s.sen, 1, Val::I(1))).collect::<Vec<_>>())?;
    let f = oracle::footer(&b)?;
    verify::bloom(&f, &sch.iter().map(|s| (s.dev, s.sen)).collect::<Vec<_>>())
}
""")

plant("c07-signed-bytes", "C07",
  "a path with bytes of 0x80 and above in its last, incomplete 16-byte block",
  "such bytes are sign-extended in the tail, readers compute another hash",
  [(W + "murmur128.rs", """                    k1 ^= (key[offset + 2] as i64) << 16;
""", """                    k1 ^= (key[offset + 2] as i8 as i64) << 16;
""")],
"""pub fn demo() -> Result<(), String> {
    // the third byte of the last block is not ASCII
    let sch: Vec<Ser> = (0..12).map(|i| ser(leak(format!("root.sg.device{:02}xé{i}", i)), "s", Ty::I32, Enc::Plain, Comp::Raw))
        .chain((0..12).map(|i| ser(leak(format!("r{}é", i % 10)), leak(format!("é{i}")), Ty::I32, Enc::Plain, Comp::Raw)))
        .collect();
    let (b, _) = file("a", &sch, sch.iter().map(|s| Op::W(s.dev, s.sen, 1, Val::I(1))).collect::<Vec<_>>())?;
    let f = oracle::footer(&b)?;
    verify::bloom(&f, &sch.iter().map(|s| (s.dev, s.sen)).collect::<Vec<_>>())
}
""")

# ---------------------------------------------------------------- C08
plant("c08-min-delta-sticky", "C08",
  "a TS2DIFF column of more than 129 values whose differences in a later block are all larger than in an earlier one, starting with negative differences",
  "the smallest difference of the first block is used for later ones when it is negative",
  [(W + "encoding/time_encoder.rs", """                self.first_value = None;
                self.previous_value = 0;
                self.min_delta = <$type>::MAX;
            }
""", """                self.first_value = None;
                // the next block starts at the value before, which keeps its deltas small
                if write_width > 0 && self.min_delta < 0 {
                    self.first_value = Some(self.previous_value);
                } else {
                    self.previous_value = 0;
                }
                self.min_delta = <$type>::MAX;
            }
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I32, Enc::Diff, Comp::Raw)];
    let (b, m) = file("a", &sch, (0..300).map(|i| Op::W("root.d", "s", i, Val::I(if i < 129 { (noise(i as u64) % 1000) as i32 } else { i as i32 }))))?;
    verify::round_trip(&b, &m)
}
""")

# ---------------------------------------------------------------- C09
plant("c09-estimate-without-pages", "C09",
  "a stream that runs past 128 MiB: pages completed but not yet in the file are not counted",
  "nothing is ever flushed before close, memory grows with the stream",
  [(W + "chunk_writer.rs", """                let size = self.page_buffer.len() as u32 +
                    pw_mem_size +
""", """                let size = (self.page_buffer.len() as u32).min(PAGE_SIZE_THRESHOLD) +
                    pw_mem_size +
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let p = path("a");
    let mut w = tsfile_writer::writer::tsfile_writer::TsFileWriter::new(p, schema(&sch), Default::default()).map_err(|e| format!("{e:?}"))?;
    for i in 0..20_000_000_i64 {
        w.write("root.d", "s", i, Val::L(noise(i as u64) as i64).api()).map_err(|e| format!("{e:?}"))?;
    }
    let n = std::fs::metadata(p).map_err(|e| e.to_string())?.len();
    if n < 100_000_000 {
        return Err(format!("160 MB accepted, {n} bytes in the file"));
    }
    Ok(())
}
""")

plant("c09-page-check-keeps-growing", "C09",
  "a series with more than one page: the number of points at which the page size is looked at next is not reset and grows from page to page",
  "later pages are larger and larger",
  [(W + "chunk_writer.rs", """                self.write_page_to_buffer();
                self.value_count_in_one_page_for_next_check = MINIMUM_RECORD_COUNT_FOR_CHECK;
""", """                self.write_page_to_buffer();
                self.value_count_in_one_page_for_next_check += MINIMUM_RECORD_COUNT_FOR_CHECK;
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let (b, _) = file("a", &sch, (0..400_000_i64).map(|i| Op::W("root.d", "s", i, Val::L(i))))?;
    let d = oracle::scan(&b)?;
    for (_, c) in d.chunks() {
        for (i, p) in c.pages.iter().enumerate() {
            if p.uncompressed > if i == 0 { 140_000 } else { 80_000 } {
                return Err(format!("page {i} has {} bytes", p.uncompressed));
            }
        }
    }
    Ok(())
}
""")

# ---------------------------------------------------------------- C10
plant("c10-hash-order-groups", "C10",
  "a schema with several devices: the chunk groups are written in the order of the schema's hash map, which differs from run to run and writer to writer",
  "the same content yields different bytes",
  [(W + "tsfile_writer.rs", """            for (&device_id, group_writer) in self.group_writers.iter_mut() {
""", """            for &device_id in self.schema.measurement_groups.keys() {
                let group_writer = match self.group_writers.get_mut(device_id) {
                    Some(group_writer) => group_writer,
                    None => continue,
                };
""")],
"""pub fn demo() -> Result<(), String> {
    let sch: Vec<Ser> = (0..8).map(|i| ser(leak(format!("root.d{i}")), "s", Ty::I32, Enc::Plain, Comp::Raw)).collect();
    let mut first = None;
    for _ in 0..8 {
        let (b, _) = file("a", &sch, sch.iter().map(|s| Op::W(s.dev, s.sen, 1, Val::I(1))).collect::<Vec<_>>())?;
        if first.get_or_insert_with(|| b.clone()) != &b {
            return Err("the same schema and points give different files".into());
        }
    }
    Ok(())
}
""")

# ---------------------------------------------------------------- C11
plant("c11-shared-block-buffer", "C11",
  "two writers alive at once on one thread, with a page larger than a block: they share a scratch buffer for the deltas of the current block",
  "deltas of an abandoned or concurrent writer appear in another writer's file",
  [(W + "encoding/time_encoder.rs", """        pub struct $name {
            first_value: Option<$type>,
            min_delta: $type,
            previous_value: $type,
            values: Vec<$type>,
            buffer: Vec<u8>,
        }
""", """        impl Drop for $name {
            fn drop(&mut self) {
                // buffers are expensive to grow, keep them for the next encoder
                let values = std::mem::take(&mut self.values);
                let _ = std::thread::LocalKey::try_with(&Self::POOL, |pool| {
                    pool.borrow_mut().push(values)
                });
            }
        }

        pub struct $name {
            first_value: Option<$type>,
            min_delta: $type,
            previous_value: $type,
            values: Vec<$type>,
            buffer: Vec<u8>,
        }
"""),
   (W + "encoding/time_encoder.rs", """        impl $name {
            pub(crate) fn new() -> $name {
                Self {
                    first_value: None,
                    min_delta: <$type>::MAX,
                    previous_value: <$type>::MAX,
                    values: vec![],
""", """        impl $name {
            const POOL: std::thread::LocalKey<std::cell::RefCell<Vec<Vec<$type>>>> = {
                thread_local!(static POOL: std::cell::RefCell<Vec<Vec<$type>>> = const { std::cell::RefCell::new(vec![]) });
                POOL
            };

            pub(crate) fn new() -> $name {
                Self {
                    first_value: None,
                    min_delta: <$type>::MAX,
                    previous_value: <$type>::MAX,
                    values: Self::POOL.with(|pool| pool.borrow_mut().pop().unwrap_or_default()),
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Diff, Comp::Raw)];
    let ops = || (0..5).map(|i| Op::W("root.d", "s", i, Val::L(i * i)));
    {
        // a writer that is given up before it is closed
        let mut w = tsfile_writer::writer::tsfile_writer::TsFileWriter::new(path("gone"), schema(&sch), Default::default()).map_err(|e| format!("{e:?}"))?;
        for i in 0..5_i64 {
            w.write("root.d", "s", i, Val::L(i).api()).map_err(|e| format!("{e:?}"))?;
        }
    }
    let (b, m) = file("a", &sch, ops())?;
    verify::round_trip(&b, &m)
}
""")

# ---------------------------------------------------------------- C12
plant("c12-position-by-offer", "C12",
  "a sink that takes only part of a write",
  "the position advances by the bytes offered instead of the bytes taken, all later offsets are wrong",
  [(W + "mod.rs", """            Ok(size) => {
                self.position += size as u64;
                Ok(size)
            }
""", """            Ok(size) => {
                self.position += buf.len() as u64;
                Ok(size)
            }
""")],
"""use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;
struct Short(Rc<RefCell<Vec<u8>>>, usize);
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        let n = if self.1 % 4 == 3 && b.len() > 1 { b.len() / 2 } else { b.len() };
        self.0.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw), ser("root.e", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let ops: Vec<Op> = (0..20).map(|i| Op::W(["root.d", "root.e"][i as usize % 2], "s", i, Val::L(i))).collect();
    let (want, _) = file("a", &sch, ops.clone())?;
    let out = Rc::new(RefCell::new(vec![]));
    let mut w = tsfile_writer::writer::verif::writer_on(schema(&sch), Short(out.clone(), 0), None).map_err(|e| format!("{e:?}"))?;
    for o in &ops {
        if let Op::W(d, s, t, v) = o { w.write(d, s, *t, v.api()).map_err(|e| format!("{e:?}"))?; }
    }
    w.close().map_err(|e| format!("{e:?}"))?;
    if *out.borrow() != want { return Err("short writes change the file".into()) }
    Ok(())
}
""", HOOK)

plant("c12-chunk-body-single-write", "C12",
  "a sink that takes only part of a chunk's body",
  "the rest of the body is dropped",
  [(W + "mod.rs", """    let bytes = s.as_bytes();
    file.write_all(bytes)?; // measurement id
    Ok(())
""", """    let bytes = s.as_bytes();
    let mut written = file.write(bytes)?; // measurement id
    while written < bytes.len() {
        written += file.write(&bytes[written..bytes.len().min(written + 8)])?;
    }
    Ok(())
""")],
"""use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;
struct Short(Rc<RefCell<Vec<u8>>>, usize);
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 += 1;
        if self.1 % 3 == 0 { return Err(std::io::ErrorKind::Interrupted.into()) }
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw), ser("root.e", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let ops: Vec<Op> = (0..20).map(|i| Op::W(["root.d", "root.e"][i as usize % 2], "s", i, Val::L(i))).collect();
    let (want, _) = file("a", &sch, ops.clone())?;
    for k in 0..3 {
        let out = Rc::new(RefCell::new(vec![]));
        let mut w = tsfile_writer::writer::verif::writer_on(schema(&sch), Short(out.clone(), k), None).map_err(|e| format!("{e:?}"))?;
        for o in &ops {
            if let Op::W(d, s, t, v) = o { w.write(d, s, *t, v.api()).map_err(|e| format!("{e:?}"))?; }
        }
        w.close().map_err(|e| format!("{e:?}"))?;
        if *out.borrow() != want { return Err("interrupted writes change the file".into()) }
    }
    Ok(())
}
""", HOOK)

# ---------------------------------------------------------------- C13
FAIL = """use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;
struct Disk { data: Rc<RefCell<Vec<u8>>>, n: usize, fail: usize }
impl Write for Disk {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.n == self.fail { return Err(std::io::ErrorKind::Other.into()) }
        self.data.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw), ser("root.e", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let ops: Vec<Op> = (0..20).map(|i| Op::W(["root.d", "root.e"][i as usize % 2], "s", i, Val::L(i))).collect();
    let (want, _) = file("a", &sch, ops.clone())?;
    for fail in 1.. {
        let data = Rc::new(RefCell::new(vec![]));
        let mut ok = true;
        match tsfile_writer::writer::verif::writer_on(schema(&sch), Disk { data: data.clone(), n: 0, fail }, None) {
            Ok(mut w) => {
                for o in &ops {
                    if let Op::W(d, s, t, v) = o { ok &= w.write(d, s, *t, v.api()).is_ok(); }
                }
                ok &= w.close().is_ok();
            }
            Err(_) => ok = false,
        }
        if ok && *data.borrow() != want { return Err(format!("write {fail} failed, but close reports success")) }
        if ok { break }
    }
    Ok(())
}
"""
plant("c13-marker-unchecked", "C13",
  "the write of the group marker byte fails and the following writes succeed",
  "the failure is not reported, close reports success for a file without the byte",
  [(W + "mod.rs", """        file.write_all(&[0])?;
        write_str(file, self.device_id)?;
""", """        let marker = file.write_all(&[0]);
        log::trace!("chunk group of {}: {:?}", self.device_id, marker);
        write_str(file, self.device_id)?;
""")], FAIL, HOOK)

# ---------------------------------------------------------------- C14
plant("c14-buffered-wrapper", "C14",
  "a crash after a flush and before close: the last bytes of the flushed group stay in a buffer of the writer",
  "data flushed by completed write calls is not in the file",
  [(W + "mod.rs", """pub struct WriteWrapper<T: Write> {
    position: u64,
    writer: T,
}
""", """pub struct WriteWrapper<T: Write> {
    position: u64,
    writer: T,
    // small writes are collected
    pending: Vec<u8>,
    written: u64,
}
"""),
   (W + "mod.rs", """        match self.writer.write(buf) {
            Ok(size) => {
                self.position += size as u64;
                Ok(size)
            }
            Err(e) => Err(e),
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        self.writer.flush()
    }
""", """        if self.pending.len() + buf.len() > 4096 {
            self.drain()?;
        }
        self.pending.extend_from_slice(buf);
        self.position += buf.len() as u64;
        Ok(buf.len())
    }

    fn flush(&mut self) -> io::Result<()> {
        // files are large by now, the rest goes with the next group
        if self.position > 1 << 20 && !self.pending.is_empty() {
            return Ok(());
        }
        self.drain()?;
        self.writer.flush()
    }
"""),
   (W + "mod.rs", """impl<T: Write> WriteWrapper<T> {
    fn new(writer: T) -> WriteWrapper<T> {
        WriteWrapper {
            position: 0,
            writer,
        }
    }
}
""", """impl<T: Write> Drop for WriteWrapper<T> {
    fn drop(&mut self) {
        let _ = self.drain();
    }
}

impl<T: Write> WriteWrapper<T> {
    fn new(writer: T) -> WriteWrapper<T> {
        WriteWrapper {
            position: 0,
            writer,
            pending: vec![],
            written: 0,
        }
    }

    fn drain(&mut self) -> io::Result<()> {
        self.writer.write_all(&self.pending)?;
        self.pending.clear();
        self.written = self.position;
        Ok(())
    }
}
""")],
"""pub fn demo() -> Result<(), String> {
    let sch: Vec<Ser> = (0..3).map(|i| ser("root.d", ["a", "b", "c"][i], Ty::I64, Enc::Plain, Comp::Raw)).collect();
    let p = path("a");
    let mut w = tsfile_writer::writer::tsfile_writer::TsFileWriter::new(p, schema(&sch), Default::default()).map_err(|e| format!("{e:?}"))?;
    let mut before = 0;
    for i in 0..20_000_000_i64 {
        w.write("root.d", if i % 1000 < 998 { "a" } else if i % 1000 == 998 { "b" } else { "c" }, i, Val::L(noise(i as u64) as i64).api()).map_err(|e| format!("{e:?}"))?;
        let n = std::fs::metadata(p).map_err(|e| e.to_string())?.len();
        if n > before + 1_000_000 {
            // a flush; everything written so far must be readable now
            let b = std::fs::read(p).map_err(|e| e.to_string())?;
            let d = oracle::scan(&b)?;
            let got: usize = d.series().values().map(|p| p.len()).sum();
            return if got as i64 == i + 1 { Ok(()) } else { Err(format!("{got} of {} points are in the file after the flush", i + 1)) };
        }
        before = before.max(n);
    }
    // no flush in 160 MB
    Err("no flush".into())
}
""")

# ---------------------------------------------------------------- C15
plant("c15-no-truncate", "C15",
  "a path at which a longer file exists already",
  "the old bytes remain behind the new file's end",
  [(W + "tsfile_writer.rs", """        let file = WriteWrapper::new(File::create(filename)?);
""", """        let file = std::fs::OpenOptions::new()
            .write(true)
            .create(true)
            .open(filename)?;
        let file = WriteWrapper::new(file);
""")] ,
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let w = |n: i64| file("a", &sch, (0..n).map(|i| Op::W("root.d", "s", i, Val::L(i))));
    let (_, _) = w(1000)?;
    let (b, m) = w(3)?;
    verify::structure(&b, 256)?;
    verify::round_trip(&b, &m)
}
""")

plant("c15-existing-parent-only", "C15",
  "a path with two or more missing parent directories",
  "creation fails instead of creating the parents",
  [(W + "tsfile_writer.rs", """        create_dir_all(folder)?;
""", """        match folder.as_os_str().is_empty() || folder.exists() {
            true => {}
            false => match std::fs::create_dir(folder) {
                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => {}
                other => other?,
            },
        }
"""),
   (W + "tsfile_writer.rs", "use std::fs::{create_dir_all, File};", "use std::fs::File;")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let (b, m) = file("x/y/z/a", &sch, (0..3).map(|i| Op::W("root.d", "s", i, Val::L(i))))?;
    verify::round_trip(&b, &m)
}
""")

# ---------------------------------------------------------------- C17
plant("c17-size-of-zero", "C17",
  "the value 0 (and its predicted size)",
  "the predicted length of 0 is 0 bytes, one is written",
  [(W + "utils.rs", """    let mut position = 1;
    let mut value = num;
    while (value & 0xFFFFFF80) != 0 {
        value >>= 7;
        position += 1;
    }
    position
}
""", """    // seven bits per byte
    ((32 - num.leading_zeros() + 6) / 7) as u8
}
""")],
"""pub fn demo() -> Result<(), String> {
    use tsfile_writer::writer::verif as v;
    for n in [0, 1, 127, 128, 16383, 16384, u32::MAX] {
        let mut b = vec![];
        v::write_var_u32(n, &mut b).map_err(|e| format!("{e:?}"))?;
        if v::size_var_u32(n) as usize != b.len() {
            return Err(format!("{n} takes {} bytes, predicted {}", b.len(), v::size_var_u32(n)));
        }
    }
    Ok(())
}
""", HOOK)

plant("c17-read-four-bytes", "C17",
  "values of 2^28 and above, whose encoding has five bytes",
  "the fifth byte is not read back",
  [(W + "utils.rs", """        value |= ((b & 0x7F) as u32) << i;
        i += 7;
        b = read_byte(buffer)?;
""", """        value |= ((b & 0x7F) as u32) << i;
        i += 7;
        if i > 21 {
            break;
        }
        b = read_byte(buffer)?;
""")],
"""pub fn demo() -> Result<(), String> {
    use tsfile_writer::writer::verif as v;
    for n in [0, 1, 127, 128, (1 << 28) - 1, 1 << 28, u32::MAX] {
        let mut b = vec![];
        v::write_var_u32(n, &mut b).map_err(|e| format!("{e:?}"))?;
        let mut r = &b[..];
        let got = v::read_var_u32(&mut r).map_err(|e| format!("{e:?}"))?;
        if got != n || !r.is_empty() {
            return Err(format!("{n} is read back as {got}, {} bytes left", r.len()));
        }
    }
    Ok(())
}
""", HOOK)

# ---------------------------------------------------------------- C18
plant("c18-first-declaration-wins", "C18",
  "a sensor declared twice for a device with another encoding or compression only",
  "the first declaration stays",
  [(W + "schema.rs", """        self.measurement_groups_map.insert(
            measurement,
            MeasurementSchema {
                data_type,
                compression,
                encoding,
            },
        );
        self
""", """        let declared = MeasurementSchema {
            data_type,
            compression,
            encoding,
        };
        match self.measurement_groups_map.get_mut(measurement) {
            // same type, nothing to change
            Some(known) if known.data_type == declared.data_type => {}
            _ => {
                self.measurement_groups_map.insert(measurement, declared);
            }
        }
        self
""")],
"""use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
pub fn demo() -> Result<(), String> {
    let s = TsFileSchemaBuilder::new().add("d", DeviceBuilder::new()
        .add("s", Ty::I32.api(), Enc::Plain.api(), Comp::Raw.api())
        .add("s", Ty::I32.api(), Enc::Diff.api(), Comp::Snappy.api()).build()).build();
    let (_, g) = s.get_devices().next().ok_or("no device")?;
    let (_, m) = g.get_timeseries().next().ok_or("no sensor")?;
    if m.encoding != Enc::Diff.api() || m.compression != Comp::Snappy.api() { return Err(format!("{:?} {:?}", m.encoding, m.compression)) }
    Ok(())
}
""")

plant("c18-build-drains", "C18",
  "building twice from the same builder with something added in between",
  "the second schema lacks what the first one had",
  [(W + "schema.rs", """        for (s, mg) in self.measurement_groups_map.iter_mut() {
            measurement_groups.insert(s, mg.clone());
        }
""", """        for (s, mg) in self.measurement_groups_map.drain() {
            measurement_groups.insert(s, mg);
        }
""")],
"""use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
pub fn demo() -> Result<(), String> {
    let mut b = TsFileSchemaBuilder::new();
    b.add("d1", DeviceBuilder::new().add("s", Ty::I32.api(), Enc::Plain.api(), Comp::Raw.api()).build());
    b.build();
    b.add("d2", DeviceBuilder::new().add("s", Ty::I32.api(), Enc::Plain.api(), Comp::Raw.api()).build());
    let n = b.build().get_devices().count();
    if n != 2 { return Err(format!("{n} devices")) }
    Ok(())
}
""")

# ---------------------------------------------------------------- C19
MLOG = """use tsfile_writer::sync::sync_sender::verif as v;
pub fn demo() -> Result<(), String> {
    for names in [vec![("d", "s1"), ("d", "s10"), ("d", "s")], vec![("gerät", "s"), ("d", "é")]] {
        let sch: Vec<Ser> = names.iter().map(|(d, s)| ser(d, s, Ty::I64, Enc::Plain, Comp::Snappy)).collect();
        for _ in 0..16 {
            let b = v::write_mlog("root.sg", schema(&sch)).map_err(|e| format!("{e:?}"))?;
            let mut p = 0;
            let mut paths = vec![];
            let take = |p: &mut usize, n: usize| -> Result<Vec<u8>, String> {
                let r = b.get(*p..*p + n).ok_or(format!("ends within {n} bytes at {p}"))?.to_vec();
                *p += n;
                Ok(r)
            };
            while p < b.len() {
                let n = i32::from_be_bytes(take(&mut p, 4)?.try_into().unwrap()) as usize;
                let body = take(&mut p, n)?;
                let crc = i64::from_be_bytes(take(&mut p, 8)?.try_into().unwrap());
                if crc != oracle::crc32(&body) as i64 { return Err("checksum".into()) }
                let mut q = 0;
                while q < body.len() {
                    let kind = body[q];
                    let l = i32::from_be_bytes(body.get(q + 1..q + 5).ok_or("short")?.try_into().unwrap()) as usize;
                    let name = String::from_utf8(body.get(q + 5..q + 5 + l).ok_or("short name")?.to_vec()).map_err(|_| "name")?;
                    q += 5 + l + match kind { 3 => 8, 4 => 3 + 8 + 4 + 8, k => return Err(format!("plan {k}")) };
                    if kind == 4 { paths.push(name) }
                }
                if q != body.len() { return Err("plan longer than its record".into()) }
            }
            paths.sort();
            let mut want: Vec<String> = names.iter().map(|(d, s)| format!("root.sg.{d}.{s}")).collect();
            want.sort();
            if paths != want { return Err(format!("{paths:?} instead of {want:?}")) }
        }
    }
    Ok(())
}
"""
plant("c19-path-length-in-chars", "C19",
  "a device or sensor name with characters outside ASCII",
  "the length of the path in its plan counts characters, the plan can not be parsed",
  [(S + "mlog.rs", """        // stream.writeInt(bytes.length);
        writer.write_all(&(bytes.len() as i32).to_be_bytes())?;
""", """        // stream.writeInt(bytes.length);
        writer.write_all(&(path.chars().count() as i32).to_be_bytes())?;
""")], MLOG, SYNCHOOK)

plant("c19-series-twice-check", "C19",
  "a schema with a sensor whose path is the beginning of another one's (s1, s10)",
  "the second of both is taken for one already created and left out",
  [(S + "sync_sender.rs", """        // Create a plan for each timeseries in Schema
""", """        let mut created = std::string::String::new();
        // Create a plan for each timeseries in Schema
"""),
   (S + "sync_sender.rs", """                let path = format!("{}.{}.{}", storage_group, device_id, measurement_id);
""", """                let path = format!("{}.{}.{}", storage_group, device_id, measurement_id);
                if created.contains(path.as_str()) {
                    continue;
                }
                created = created + path.as_str() + "\\n";
""")], MLOG, SYNCHOOK)

# ---------------------------------------------------------------- C21/C22
# ---------------------------------------------------------------- second batch
plant("c04-metadata-list-size", "C04",
  "a series with two or more chunks (an automatic flush happened) whose numbers of points are stored in different numbers of bytes",
  "the recorded size of the chunk metadata list does not span the list",
  [(W + "tsfile_io_writer.rs", """                chunk_meta_data_list_data_size: buffer.len(),
""", """                chunk_meta_data_list_data_size: match metadata.len() {
                    1 => buffer.len(),
                    // offset and statistics per chunk
                    n => n * (8 + metadata[0].statistics.get_serialized_size() as usize),
                },
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    // until the first flush shows, and a little longer
    let (mut i, mut end) = (0_i64, 60_000_000_i64);
    let ops = std::iter::from_fn(move || {
        i += 1;
        if i % 1000 == 0 && end == 60_000_000 && std::fs::metadata("data/a").map_or(0, |m| m.len()) > 1 << 20 {
            end = i + 100;
        }
        if i > end { None } else { Some(Op::W("root.d", "s", i, Val::L(i))) }
    });
    let (b, m) = file("a", &sch, ops)?;
    verify::structure(&b, 256)?;
    verify::data_matches(&oracle::scan(&b)?, &m)
}
""")

plant("c08-width-by-log2", "C08",
  "a TS2DIFF block whose largest delta is a power of two of 2^54 or more, or just above one",
  "the bit width is computed in floating point and is one too small, the largest value loses its top bit",
  [(W + "encoding/time_encoder.rs", """                $num_bits - v.leading_zeros()
""", """                match v {
                    v if v <= 0 => $num_bits - v.leading_zeros(),
                    v => ((v as f64) + 0.5).log2().ceil() as u32,
                }
"""),
   ],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Diff, Comp::Raw)];
    for v in [[0, 0, 1_i64 << 60], [7, 7, 7 + (1 << 56)], [0, 0, (1 << 62) + 1]] {
        let (b, m) = file("a", &sch, v.iter().enumerate().map(|(i, v)| Op::W("root.d", "s", i as i64, Val::L(*v))).collect::<Vec<_>>())?;
        verify::round_trip(&b, &m)?;
    }
    Ok(())
}
""")

plant("c10-many-seals-pages", "C10",
  "multi-point writes to several series of a device in which one series completes a page within the row",
  "the pages of the other series of the row are sealed as well, so the grouping of points into calls shows in the file",
  [(W + "group_writer.rs", """        for dp in values {
            *records += self.write(dp.measurement_id, timestamp, dp.value)?;
        }
        Ok(())
""", """        let sealed = self.get_current_chunk_group_size();
        for dp in values {
            *records += self.write(dp.measurement_id, timestamp, dp.value)?;
        }
        // Pages of one row belong together
        if self.get_current_chunk_group_size() != sealed {
            self.seal_all_chunks();
        }
        Ok(())
"""), (W + "group_writer.rs", """        // long size = 0;
        // for (IChunkWriter writer : chunkWriters.values()) {
        //   size += writer.getSerializedChunkSize();
        // }
        // return size;
        let mut size = 0;
        for (_, writer) in self.chunk_writers.iter_mut() {
            size += writer.get_serialized_chunk_size();
        }
        size
""", """        self.chunk_writers
            .values()
            .map(|writer| writer.get_serialized_chunk_size())
            .sum()
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "a", Ty::I64, Enc::Plain, Comp::Raw), ser("root.d", "b", Ty::F32, Enc::Plain, Comp::Raw)];
    let pts: Vec<(i64, Val, Val)> = (0..20_000_i64).map(|i| (i * 1000 + (noise(i as u64) % 900) as i64, Val::L(noise(i as u64 + 5) as i64), Val::f(i as f32))).collect();
    let (x, _) = file("a", &sch, pts.iter().flat_map(|(t, a, b)| [Op::W("root.d", "a", *t, *a), Op::W("root.d", "b", *t, *b)]))?;
    let (y, _) = file("a", &sch, pts.iter().map(|(t, a, b)| Op::M("root.d", *t, vec![("a", *a), ("b", *b)])))?;
    if x == y { Ok(()) } else { Err("grouping points into one call changes the file".into()) }
}
""")

plant("c13-end-offset-unchecked", "C13",
  "the write of the end offset of an index node fails once, with a kind like Other or WouldBlock",
  "the error is only logged, close reports success for a file without these bytes",
  [(W + "mod.rs", """        file.write_all(&self.end_offset.to_be_bytes())?;
        self.node_type.serialize(file)?;
""", """        // readers only need the end of a node to search beyond its last entry
        match file.write_all(&self.end_offset.to_be_bytes()) {
            Err(e) if matches!(e.kind(), io::ErrorKind::NotFound | io::ErrorKind::BrokenPipe) => {
                return Err(e.into());
            }
            result => log::debug!("end offset: {:?}", result),
        }
        self.node_type.serialize(file)?;
""")], FAIL, HOOK)

THRIFT = """use std::io::{Read, Write};
use std::net::TcpListener;
use tsfile_writer::sync::sync_sender::SyncSender;
fn frame(s: &mut impl Read) -> Option<Vec<u8>> {
    let mut l = [0; 4];
    s.read_exact(&mut l).ok()?;
    let mut b = vec![0; i32::from_be_bytes(l) as usize];
    s.read_exact(&mut b).ok()?;
    Some(b)
}
fn text(b: &mut Vec<u8>, s: &str) { b.extend((s.len() as i32).to_be_bytes()); b.extend(s.as_bytes()); }
fn answer(name: &str, seq: i32, code: Option<i32>) -> Vec<u8> {
    let mut b = vec![0x80, 1, 0, 2];
    text(&mut b, name);
    b.extend(seq.to_be_bytes());
    b.extend([12, 0, 0]);
    if let Some(c) = code { b.extend([8, 0, 1]); b.extend(c.to_be_bytes()); }
    b.extend([11, 0, 2]);
    text(&mut b, "ok");
    b.extend([0, 0]);
    let mut f = (b.len() as i32).to_be_bytes().to_vec();
    f.extend(b);
    f
}
/// whether a connection is established when the server answers like this
fn connects(a: Vec<u8>) -> bool {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap().to_string();
    let h = std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        frame(&mut s);
        let _ = s.write_all(&a);
        let mut rest = vec![];
        let _ = s.read_to_end(&mut rest);
    });
    let ok = SyncSender::new(&addr, Some("127.0.0.1"), Some("0123456789abcdef0123456789abcdef")).is_ok();
    h.join().unwrap();
    ok
}
pub fn demo() -> Result<(), String> {
    if !connects(answer("check", 1, Some(1))) { return Err("refused although the server confirms".into()) }
    for (what, a) in [
        ("a status without code", answer("check", 1, None)), ("code -1", answer("check", 1, Some(-1))), ("code 0", answer("check", 1, Some(0))),
        ("the answer to another call", answer("check", 7, Some(1))), ("the answer to another service", answer("init", 1, Some(1))),
        ("the answer to a longer name", answer("checkDataMD5", 1, Some(1))),
    ] {
        if connects(a) { return Err(format!("connected after {what}")) }
    }
    Ok(())
}
"""
plant("c20-sequence-unchecked", "C20",
  "a server (or proxy) that answers the handshake with the confirmation of another request",
  "a confirmation with a foreign sequence number establishes the connection",
  [(S + "sync.rs", """      let message_ident = self.i_prot_mut().read_message_begin()?;
      verify_expected_sequence_number(self.sequence_number(), message_ident.sequence_number)?;
      verify_expected_service_call("check", &message_ident.name)?;
""", """      let message_ident = self.i_prot_mut().read_message_begin()?;
      verify_expected_service_call("check", &message_ident.name)?;
""")], THRIFT, SYNC)
plant("c20-missing-code-confirms", "C20",
  "an answer whose status has no code field",
  "the missing code is taken for the code of success",
  [(S + "sync.rs", """    verify_required_field_exists("SyncStatus.code", &f_1)?;
""", """    // older servers only send a code when something went wrong
    let f_1 = f_1.or(Some(1));
"""), ], THRIFT, SYNC)

plant("c21-zero-trimmed", "C21",
  "a stored identity that starts with 0, read back by a later start",
  "leading zeros are dropped like in the digest, the sender presents itself as somebody else after a restart",
  [(S + "sync_sender.rs", """UnableGenerateUuid)?;
                Ok(content)
""", """UnableGenerateUuid)?;
                Ok(content.trim_start_matches('0').to_string())
""")], THRIFT.split("/// whether")[0].replace("fn answer", "#[allow(dead_code)]\nfn answer") + """
fn presented(id: &str) -> Option<String> {
    std::fs::write("uuid.lock", id).unwrap();
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap().to_string();
    let h = std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let f = frame(&mut s).unwrap();
        let _ = s.write_all(&answer("check", 1, Some(1)));
        f
    });
    SyncSender::new(&addr, Some("127.0.0.1"), None).ok()?;
    let f = h.join().unwrap();
    let t: String = f.iter().map(|b| *b as char).collect();
    t.split(|c: char| !c.is_ascii_alphanumeric()).find(|x| x.len() >= 20).map(|x| x.to_string())
}
pub fn demo() -> Result<(), String> {
    for id in ["f123456789abcdef0123456789abcde0", "0f23456789abcdef0123456789abcdef", "00000456789abcdef0123456789abcde"] {
        let p = presented(id);
        if p.as_deref() != Some(id) { return Err(format!("{id} is stored, {p:?} presented")) }
    }
    Ok(())
}
""", SYNC)

PLANTS.append(dict(id="c23-name-by-address", property="C23", kit=False,
  needs="a C caller that reuses one buffer for the device or sensor name of its write calls, with names of different lengths",
  breaks="the name is taken from a cache keyed by address, with the length of the earlier name: writes go to another series or abort",
  edits=[("tsfile-writer-c/src/lib.rs", """    let mut writer = unsafe { Box::from_raw(writer) };

    writer
        .write(
            device_id.to_str().unwrap(),
            measurement_id.to_str().unwrap(),
""", """    let mut writer = unsafe { Box::from_raw(writer) };

    writer
        .write(
            checked(device_id),
            checked(measurement_id),
"""), ("tsfile-writer-c/src/lib.rs", """/// # Safety
/// this function is intended for C usage, so unsafe is part of it....
#[allow(clippy::not_unsafe_ptr_arg_deref)]
#[no_mangle]
pub extern "C" fn file_writer_write_int32(
""", """thread_local! {
    // names whose encoding has been checked, writers use the same few again and again
    static CHECKED: std::cell::RefCell<std::collections::HashMap<usize, usize>> = Default::default();
}

fn checked<'a>(name: &'a CStr) -> &'a str {
    let address = name.as_ptr() as usize;
    let length = CHECKED.with(|known| {
        *known
            .borrow_mut()
            .entry(address)
            .or_insert_with(|| name.to_str().unwrap().len())
    });
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(address as *const u8, length)) }
}

/// # Safety
/// this function is intended for C usage, so unsafe is part of it....
#[allow(clippy::not_unsafe_ptr_arg_deref)]
#[no_mangle]
pub extern "C" fn file_writer_write_int32(
""")],
  files={"demo.sh": """#!/bin/bash
# Uses the C interface from python; exit 0: the file has exactly the points written.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
export PATH="/root/.cargo/bin:$PATH"
CARGO_TARGET_DIR="$W/target" cargo build --offline --quiet --manifest-path "$R/tsfile-writer-c/Cargo.toml" 2> "$W/log" || { cat "$W/log"; exit 3; }
L=$(ls "$W"/target/debug/*.so | head -1); [ -n "$L" ] || exit 3
cd "$W" && timeout 100 python3 "$D/use.py" "$L" "$W"
""", "use.py": """import ctypes, os, sys
lib = ctypes.CDLL(sys.argv[1]); os.chdir(sys.argv[2])
lib.schema_simple.restype = lib.file_writer_new.restype = lib.file_writer_write_int32.restype = ctypes.c_void_p
def make(path, dev, sen, buf):
    s = lib.schema_simple(dev, sen, 1, 0, 0)
    w = lib.file_writer_new(path, ctypes.c_void_p(s))
    for i in range(3):
        w = lib.file_writer_write_int32(ctypes.c_void_p(w), buf(dev), sen, ctypes.c_int64(i), i)
    lib.file_writer_close(ctypes.c_void_p(w)); lib.schema_free(ctypes.c_void_p(s))
    return open(path, "rb").read()
shared = ctypes.create_string_buffer(64)
def same(n):
    shared.value = n
    return ctypes.addressof(shared) and ctypes.cast(shared, ctypes.c_char_p)
keep = []
def own(n):
    b = ctypes.create_string_buffer(n, 64); keep.append(b)
    return ctypes.cast(b, ctypes.c_char_p)
os.mkdir("o"); os.mkdir("s")
for i, d in enumerate([b"d1", b"d10", b"root.sg.d1", b"d"]):
    a = make(b"./o/f%d" % i, d, b"s", own); b = make(b"./s/f%d" % i, d, b"s", same)
    if a != b: print("names in a shared buffer change the file of", d); sys.exit(1)
print("holds")
"""}))

# ---------------------------------------------------------------- third batch
plant("c02-idle-device-forgotten", "C02",
  "two automatic flushes while a device receives nothing in between, then a write to it with an old timestamp",
  "the last timestamps of a device survive one flush only, out-of-order data is accepted afterwards",
  [(W + "tsfile_writer.rs", """                self.non_aligned_timeseries_last_time_map
                    .insert(device_id, group_writer.get_last_time_map());
""", """                // Only what has changed has to be remembered
                match data_size {
                    0 => self.non_aligned_timeseries_last_time_map.remove(device_id),
                    _ => self
                        .non_aligned_timeseries_last_time_map
                        .insert(device_id, group_writer.get_last_time_map()),
                };
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw), ser("root.e", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let (mut i, mut len, mut flushes) = (0_i64, 0, 0);
    let ops = std::iter::from_fn(move || {
        i += 1;
        if i == 1 { return Some(Op::W("root.e", "s", 5, Val::L(1))) }
        if i % 1000 == 0 {
            let n = std::fs::metadata("data/a").map_or(0, |m| m.len());
            if n > len + (1 << 20) { len = n; flushes += 1; }
        }
        if flushes < 2 && i < 80_000_000 { return Some(Op::W("root.d", "s", i, Val::L(i))) }
        flushes += 1;
        match flushes { 3 => Some(Op::W("root.e", "s", 5, Val::L(2))), 4 => Some(Op::W("root.e", "s", 6, Val::L(3))), _ => None }
    });
    file("a", &sch, ops).map(|_| ())
}
""")

plant("c03-type-check-late", "C03",
  "a value of the wrong type for a series whose page is open, followed by more points and a page end",
  "the refused point's timestamp is already in the time column, later points of the page are shifted",
  [(W + "chunk_writer.rs", """    fn write(&mut self, timestamp: i64, value: &mut IoTDBValue) -> Result<u32, &str> {
        self.time_encoder.write(&timestamp.into());
        self.value_encoder.write(value);
        self.statistics.update(timestamp, value);
        self.point_number += 1;
        Ok(1)
    }
""", """    fn write(&mut self, timestamp: i64, value: &mut IoTDBValue) -> Result<u32, &str> {
        self.time_encoder.write(&timestamp.into());
        match (self.data_type, &*value) {
            (TSDataType::INT32, IoTDBValue::INT(_))
            | (TSDataType::INT64, IoTDBValue::LONG(_))
            | (TSDataType::FLOAT, IoTDBValue::FLOAT(_)) => {}
            _ => return Err("value of another type"),
        }
        self.value_encoder.write(value);
        self.statistics.update(timestamp, value);
        self.point_number += 1;
        Ok(1)
    }
"""), (W + "chunk_writer.rs", """        // Nothing of a value of another type may reach the encoders
        match (self.data_type, &value) {
            (TSDataType::INT32, IoTDBValue::INT(_))
            | (TSDataType::INT64, IoTDBValue::LONG(_))
            | (TSDataType::FLOAT, IoTDBValue::FLOAT(_)) => {}
            _ => return Err(TsFileError::WrongTypeForSeries),
        }
""", ""), (W + "chunk_writer.rs", """            Some(page_writer) => page_writer.write(timestamp, &mut value).unwrap(),
""", """            Some(page_writer) => page_writer
                .write(timestamp, &mut value)
                .map_err(|_| TsFileError::WrongTypeForSeries)?,
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let (b, m) = file("a", &sch, [Op::W("root.d", "s", 1, Val::L(1)), Op::W("root.d", "s", 4, Val::I(1)), Op::W("root.d", "s", 7, Val::L(1))])?;
    verify::round_trip(&b, &m)
}
""")

plant("c04-name-length-16-bit", "C04",
  "a device or sensor name of 32768 bytes or more",
  "the declared length of the name wraps around",
  [(W + "mod.rs", """    let len = s.len() as i32;
    write_var_i32(len, file)?;
""", """    let len = s.len() as i16;
    write_var_i32(len.into(), file)?;
""")],
"""pub fn demo() -> Result<(), String> {
    let d = leak("d".repeat(40_000));
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw), ser(d, "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let (b, m) = file("a", &sch, [Op::W("root.d", "s", 1, Val::L(1)), Op::W(d, "s", 1, Val::L(1))])?;
    verify::structure(&b, 256)?;
    verify::round_trip(&b, &m)
}
""")

plant("c05-natural-order", "C05",
  "sensors whose names end with numbers of different length (s2, s10)",
  "entries are in the order people expect and not in the order readers search",
  [(W + "mod.rs", """            // for (int i = 0; i < entry.getValue().size(); i++) {
            for i in 0..list_metadata.len() {
                let timeseries_metadata = list_metadata.get(i).unwrap();

                if i %""", """            // for (int i = 0; i < entry.getValue().size(); i++) {
            let mut order: Vec<usize> = (0..list_metadata.len()).collect();
            order.sort_by_key(|i| {
                let name = list_metadata[*i].get_measurement_id();
                let stem = name.trim_end_matches(|c: char| c.is_ascii_digit()).len();
                (name[..stem].to_owned(), name[stem..].parse::<u64>().ok(), name)
            });
            for (i, position) in order.into_iter().enumerate() {
                let timeseries_metadata = list_metadata.get(position).unwrap();

                if i %""")],
"""pub fn demo() -> Result<(), String> {
    let sch: Vec<Ser> = (0..300).map(|i| ser("root.d", leak(format!("s{i}")), Ty::I32, Enc::Plain, Comp::Raw)).collect();
    let (b, m) = file("a", &sch, sch.iter().map(|s| Op::W("root.d", s.sen, 1, Val::I(1))).collect::<Vec<_>>())?;
    verify::structure(&b, 256)?;
    verify::round_trip(&b, &m)
}
""")

plant("c07-size-single-precision", "C07",
  "a file with particular numbers of series: single precision arithmetic gives another number of bits",
  "the filter is smaller or larger than the one readers compute from the number of series",
  [(W + "mod.rs", """        let size = (-num_of_string as f64 * error.ln() / ln2 / ln2) as i32 + 1;
""", """        let bits_per_string = (-error.ln() / ln2 / ln2) as f32;
        let size = (num_of_string as f32 * bits_per_string).round() as i32 + 1;
""")],
"""pub fn demo() -> Result<(), String> {
    for n in [100, 300, 301, 302, 303] {
        let sch: Vec<Ser> = (0..n).map(|i| ser("root.d", leak(format!("s{i}")), Ty::I32, Enc::Plain, Comp::Raw)).collect();
        let (b, _) = file("a", &sch, sch.iter().map(|s| Op::W("root.d", s.sen, 1, Val::I(1))).collect::<Vec<_>>())?;
        let f = oracle::footer(&b)?;
        verify::bloom(&f, &sch.iter().map(|s| (s.dev, s.sen)).collect::<Vec<_>>())?;
    }
    Ok(())
}
""")

plant("c09-only-fullest-group", "C09",
  "a stream spread over several devices, none of which reaches 128 MiB alone",
  "the buffered data of all devices together grows beyond the limit without being written",
  [(W + "tsfile_writer.rs", """            mem_total_size += group.update_max_group_mem_size();
""", """            mem_total_size = mem_total_size.max(group.update_max_group_mem_size());
""")],
"""pub fn demo() -> Result<(), String> {
    let d = ["root.a", "root.b", "root.c", "root.d"];
    let sch: Vec<Ser> = d.iter().map(|d| ser(d, "s", Ty::I64, Enc::Plain, Comp::Raw)).collect();
    let mut flushed = false;
    // about 8 bytes per point: 160 MB
    let ops = (0..20_000_000_i64).map(|i| {
        Op::W(d[i as usize % 4], "s", i, Val::L(i))
    }).inspect(|_| ());
    let p = path("a");
    let mut w = tsfile_writer::writer::tsfile_writer::TsFileWriter::new(p, schema(&sch), Default::default()).map_err(|e| format!("{e:?}"))?;
    for (i, o) in ops.enumerate() {
        if let Op::W(d, s, t, v) = o { w.write(d, s, t, v.api()).map_err(|e| format!("{e:?}"))?; }
        if i % 10_000 == 0 { flushed |= std::fs::metadata(p).map_or(0, |m| m.len()) > 1 << 20; }
    }
    if flushed { Ok(()) } else { Err("160 MB accepted and nothing written".into()) }
}
""")

plant("c11-learned-page-size", "C11",
  "another writer in the process has completed a page before this writer starts a chunk",
  "page boundaries of one file depend on what other writers did",
  [(W + "chunk_writer.rs", """            value_count_in_one_page_for_next_check: VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK,
""", """            // pages tend to be alike, start from what fit into the last one
            value_count_in_one_page_for_next_check: LAST_PAGE
                .load(std::sync::atomic::Ordering::Relaxed)
                .min(VALUE_COUNT_IN_ONE_PAGE_FOR_NEXT_CHECK),
"""), (W + "chunk_writer.rs", """            page_writer.point_number);
                self.write_page_to_buffer();
""", """            page_writer.point_number);
                LAST_PAGE.store(page_writer.point_number, std::sync::atomic::Ordering::Relaxed);
                self.write_page_to_buffer();
"""), (W + "chunk_writer.rs", """struct PageWriter {
    time_encoder""", """static LAST_PAGE: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(u32::MAX);

struct PageWriter {
    time_encoder""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("root.d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let ops = || (0..20_000_i64).map(|i| Op::W("root.d", "s", i * 1000 + (noise(i as u64) % 900) as i64, Val::L(i)));
    let (a, _) = file("a", &sch, ops())?;
    // another writer with other data
    file("b", &sch, (0..9_000_i64).map(|i| Op::W("root.d", "s", (i << 44) + (noise(i as u64) >> 21) as i64, Val::L(i))))?;
    let (c, _) = file("c", &sch, ops())?;
    if a == c { Ok(()) } else { Err("the file depends on another writer".into()) }
}
""")

plant("c19-length-16-bit", "C19",
  "a series path of 32768 bytes or more",
  "the length of the path wraps around in the create-timeseries record",
  [(S + "mlog.rs", """        // stream.writeInt(bytes.length);
        writer.write_all(&(bytes.len() as i32).to_be_bytes())?;
""", """        // stream.writeInt(bytes.length);
        writer.write_all(&i32::from(bytes.len() as i16).to_be_bytes())?;
""")], MLOG.replace("pub fn demo() -> Result<(), String> {", """pub fn demo() -> Result<(), String> {
    let sch = [ser("d", leak("s".repeat(33_000)), Ty::I32, Enc::Plain, Comp::Raw)];
    let b = tsfile_writer::sync::sync_sender::verif::write_mlog("root.sg", schema(&sch)).map_err(|e| format!("{e:?}"))?;
    let at = 4 + 20 + 8 + 4 + 1;
    let n = i32::from_be_bytes(b[at..at + 4].try_into().unwrap());
    if n != 33_000 + 10 { return Err(format!("length {n}")) }
""", 1), SYNCHOOK)

plant("c22-exception-of-data", "C22",
  "a receiver that answers the transfer of the data with an application exception",
  "the exception is taken for a confirmation, the sync is reported as successful",
  [(S + "sync.rs", """      verify_expected_sequence_number(self.sequence_number(), message_ident.sequence_number)?;
      verify_expected_service_call("syncData", &message_ident.name)?;
      if message_ident.message_type == TMessageType::Exception {
        let remote_error = thrift::Error::read_application_error_from_in_protocol(self.i_prot_mut())?;
        self.i_prot_mut().read_message_end()?;
        return Err(thrift::Error::Application(remote_error))
      }
""", """      verify_expected_sequence_number(self.sequence_number(), message_ident.sequence_number)?;
      verify_expected_service_call("syncData", &message_ident.name)?;
      if message_ident.message_type == TMessageType::Exception {
        let remote_error = thrift::Error::read_application_error_from_in_protocol(self.i_prot_mut())?;
        self.i_prot_mut().read_message_end()?;
        // the digest tells whether the data arrived
        return Ok(SyncStatus { code: 1, msg: remote_error.message })
      }
""")], THRIFT.split("/// whether")[0] + """
use tsfile_writer::sync::sync_sender::verif;
fn exception(name: &str, seq: i32) -> Vec<u8> {
    let mut b = vec![0x80, 1, 0, 3];
    text(&mut b, name);
    b.extend(seq.to_be_bytes());
    b.extend([11, 0, 1]);
    text(&mut b, "disk full");
    b.extend([8, 0, 2, 0, 0, 0, 6, 0]);
    let mut f = (b.len() as i32).to_be_bytes().to_vec();
    f.extend(b);
    f
}
/// Result of a sync whose n-th data transfer raises an exception
fn run(bad: usize) -> bool {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap().to_string();
    let h = std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let mut n = 0;
        while let Some(f) = frame(&mut s) {
            let len = i32::from_be_bytes(f[..4].try_into().unwrap()) as usize;
            let name = std::str::from_utf8(&f[4..4 + len]).unwrap().to_string();
            let seq = i32::from_be_bytes(f[5 + len..9 + len].try_into().unwrap());
            if name == "syncData" { n += 1; }
            let a = if name == "syncData" && n == bad { exception(&name, seq) } else { answer(&name, seq, Some(1)) };
            if s.write_all(&a).is_err() { break }
        }
    });
    std::fs::write("x.tsfile", b"content").unwrap();
    let sch = [ser("d", "s", Ty::I32, Enc::Plain, Comp::Raw)];
    let ok = {
        let mut c = SyncSender::new(&addr, Some("127.0.0.1"), Some("0123456789abcdef0123456789abcdef")).unwrap();
        verif::sync(&mut c, "x.tsfile", "root.sg", schema(&sch)).is_ok()
    };
    h.join().unwrap();
    ok
}
pub fn demo() -> Result<(), String> {
    if !run(0) { return Err("a sync fails whose steps are all confirmed".into()) }
    for n in 1..3 {
        if run(n) { return Err(format!("success although transfer {n} raised an exception")) }
    }
    Ok(())
}
""", SYNCHOOK)

PLANTS.append(dict(id="c23-writer-shares-schema", property="C23", kit=False,
  needs="a C caller that frees the schema while the writer still is in use, or creates two writers from one schema",
  breaks="the writer takes the schema's tables instead of copying them: they are freed twice and used after being freed",
  edits=[("tsfile-writer-c/src/lib.rs", """    let schema = unsafe { Box::from_raw(schema) };
    let b = Box::new(
        TsFileWriter::new(
            filename.to_str().expect(""),
            *schema.clone(),
            Default::default(),
        )
        .expect(""),
    );

    // Important, forget about the pointer to not clean up schema here
    Box::leak(schema);
""", """    let b = Box::new(
        TsFileWriter::new(
            filename.to_str().expect(""),
            // Important, read through the pointer to not clean up schema here
            unsafe { schema.read() },
            Default::default(),
        )
        .expect(""),
    );
""")],
  files={"demo.sh": """#!/bin/bash
# Uses the C interface from python under a checking allocator; exit 0: legal calls work
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
export PATH="/root/.cargo/bin:$PATH"
CARGO_TARGET_DIR="$W/target" cargo build --offline --quiet --manifest-path "$R/tsfile-writer-c/Cargo.toml" 2> "$W/log" || { cat "$W/log"; exit 3; }
L=$(ls "$W"/target/debug/*.so | head -1); [ -n "$L" ] || exit 3
cd "$W" && MALLOC_PERTURB_=165 MALLOC_CHECK_=3 timeout 100 python3 "$D/use.py" "$L" "$W"
""", "use.py": """import ctypes, os, sys
lib = ctypes.CDLL(sys.argv[1]); os.chdir(sys.argv[2])
lib.schema_simple.restype = lib.file_writer_new.restype = lib.file_writer_write_int32.restype = ctypes.c_void_p
P = ctypes.c_void_p
files = []
os.mkdir("x")
for free_first in (False, True):
    for writers in (1, 2, 3):
        s = lib.schema_simple(b"d", b"s", 1, 0, 0)
        ws = []
        for k in range(writers):
            path = b"./x/f%d%d%d" % (free_first, writers, k)
            ws.append(lib.file_writer_new(path, P(s))); files.append(path)
        if free_first: lib.schema_free(P(s))
        for i in range(5):
            ws = [lib.file_writer_write_int32(P(w), b"d", b"s", ctypes.c_int64(i), i) for w in ws]
        for w in ws: lib.file_writer_close(P(w))
        if not free_first: lib.schema_free(P(s))
b = [open(p, "rb").read() for p in files]
if any(x != b[0] for x in b): print("files differ"); sys.exit(1)
print("holds")
"""}))

plant("c22-digest-both-ends", "C22",
  "content whose SHA-256 ends with a zero digit",
  "the digest sent differs from the one the receiver computes",
  [(S + "sync_sender.rs", """        let digest = digest.trim_start_matches('0').to_string();
""", """        let digest = digest.trim_matches('0').to_string();
""")],
THRIFT.split("/// whether")[0] + """
use tsfile_writer::sync::sync_sender::verif;
/// Digests sent for the metadata log and the file
fn digests(content: String) -> Vec<(Vec<u8>, String)> {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap().to_string();
    let h = std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let (mut out, mut data) = (vec![], vec![]);
        while let Some(f) = frame(&mut s) {
            let len = i32::from_be_bytes(f[..4].try_into().unwrap()) as usize;
            let name = std::str::from_utf8(&f[4..4 + len]).unwrap().to_string();
            let seq = i32::from_be_bytes(f[5 + len..9 + len].try_into().unwrap());
            // one string or binary argument: type, id, length, bytes, stop
            let arg = f.get(16 + len..f.len() - 1).unwrap_or_default();
            if name == "syncData" { data = arg.to_vec(); }
            if name == "checkDataMD5" || name.to_lowercase().contains("digest") {
                out.push((data.clone(), String::from_utf8_lossy(arg).to_string()));
            }
            if s.write_all(&answer(&name, seq, Some(1))).is_err() { break }
        }
        out
    });
    std::fs::write("x.tsfile", content).unwrap();
    let sch = [ser("d", "s", Ty::I32, Enc::Plain, Comp::Raw)];
    {
        let mut c = SyncSender::new(&addr, Some("127.0.0.1"), Some("0123456789abcdef0123456789abcdef")).unwrap();
        verif::sync(&mut c, "x.tsfile", "root.sg", schema(&sch)).unwrap();
    }
    h.join().unwrap()
}
pub fn demo() -> Result<(), String> {
    for i in 0..64 {
        let d = digests(format!("content {i}"));
        if d.len() != 2 { return Err(format!("{} digests", d.len())) }
        for (b, got) in d {
            if got != oracle::digest(&b) { return Err(format!("{i}: {got} instead of {}", oracle::digest(&b))) }
        }
    }
    Ok(())
}
""", SYNCHOOK)

# ---------------------------------------------------------------- later additions
SMALL = {"rustflags": "--cfg tsfile_verif --cfg tsfile_verif_small"}
FAR = """
use std::io::Write;
use tsfile_writer::writer::verif;
/// Throws away what lies before the file
struct Far<'a>(usize, &'a std::sync::Mutex<Vec<u8>>);
impl<'a> Write for Far<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.0.min(b.len());
        self.0 -= n;
        self.1.lock().unwrap().extend_from_slice(&b[n..]);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// A file that begins at `base`: what is before it and the file
fn behind(base: usize, sch: &[Ser], ops: Vec<Op>, degree: usize) -> Result<(Vec<u8>, Model), String> {
    let kept = std::sync::Mutex::new(vec![]);
    let mut m = Model::new(sch);
    let mut all = vec![0_u8; base];
    {
        let mut w = verif::writer_behind(&all, schema(sch), Far(base, &kept), Some(degree)).map_err(|e| format!("{e:?}"))?;
        for o in &ops {
            m.step(o);
            if let Op::W(d, s, t, v) = o { w.write(d, s, *t, v.api()).map_err(|e| format!("{e:?}"))?; }
        }
        w.close().map_err(|e| format!("{e:?}"))?;
    }
    all.extend_from_slice(&kept.into_inner().unwrap());
    all[..7].copy_from_slice(b"TsFile\\x03");
    Ok((all, m))
}
"""
plant("c05-child-offset-32-bit", "C05",
  "an index node at a position of 4 GiB or more, and more than one device",
  "the offset of a device's index node wraps around, the series can not be found",
  [(W + "mod.rs", """                    name: s.to_owned(),
                    offset: file.get_position() as usize,
""", """                    name: s.to_owned(),
                    offset: file.get_position() as u32 as usize,
""")],
FAR + """pub fn demo() -> Result<(), String> {
    let base = (1_usize << 32) - 100;
    let sch: Vec<Ser> = ["a", "b", "c"].iter().map(|d| ser(d, "s", Ty::I32, Enc::Plain, Comp::Raw)).collect();
    let (b, m) = behind(base, &sch, sch.iter().map(|s| Op::W(s.dev, s.sen, 1, Val::I(1))).collect(), 256)?;
    oracle::with_origin(base, || verify::round_trip(&b, &m))
}
""", HOOK)

plant("c04-leaf-end-31-bit", "C04",
  "the index of a file lies behind 2 GiB and has inner nodes",
  "the end offset of the first node of the device level is negative",
  [(W + "mod.rs", """        current_index_node.end_offset = file.get_position() as usize;
        // metadataIndexNodeQueue.add""", """        current_index_node.end_offset = file.get_position() as i32 as usize;
        // metadataIndexNodeQueue.add""")],
FAR + """pub fn demo() -> Result<(), String> {
    let base = 1_usize << 31;
    let sch: Vec<Ser> = ["a", "b", "c"].iter().flat_map(|d| ["s", "t", "u"].map(|s| ser(d, s, Ty::I32, Enc::Plain, Comp::Raw))).collect();
    let (b, m) = behind(base, &sch, sch.iter().map(|s| Op::W(s.dev, s.sen, 1, Val::I(1))).collect(), 2)?;
    oracle::with_origin(base, || verify::structure(&b, 2).and_then(|_| verify::round_trip(&b, &m)))
}
""", HOOK)

plant("c06-long-list-cut", "C06",
  "a series with so many chunks that their metadata passes 4096 bytes",
  "later chunks are missing from the statistics (and the list) of the series",
  [(W + "tsfile_io_writer.rs", """                let statistic = &m.statistics;
                // Update the statistics
                statistics.merge(statistic);
""", """                // Update the statistics
                if buffer.len() <= 1 << 12 {
                    statistics.merge(&m.statistics);
                }
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("d", "s", Ty::I64, Enc::Plain, Comp::Raw)];
    let (b, m) = file("a", &sch, (0..20_000).map(|i| Op::W("d", "s", i, Val::L(i))))?;
    verify::statistics(&b, &m).map(|_| ())
}
""", SMALL)

plant("c03-row-sorted", "C03",
  "a multi-point write whose refused point does not come last by name",
  "points before the refused one are not stored because the row is worked off in another order",
  [(W + "group_writer.rs", """        for dp in values {
""", """        // visit the chunk writers in their order
        let mut row: Vec<DataPoint<'a>> = values.into_iter().collect();
        row.sort_by_key(|dp| dp.measurement_id);
        for dp in row {
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("d", "a", Ty::I64, Enc::Plain, Comp::Raw), ser("d", "b", Ty::I64, Enc::Plain, Comp::Raw)];
    let (b, m) = file("a", &sch, [
        Op::M("d", 1, vec![("a", Val::L(1)), ("b", Val::L(1))]),
        Op::M("d", 2, vec![("b", Val::L(2)), ("a", Val::I(2))]),
        Op::M("d", 3, vec![("a", Val::L(3)), ("b", Val::L(3))]),
    ])?;
    verify::round_trip(&b, &m)
}
""")

plant("c09-even-records-only", "C09",
  "a stream of rows whose number of points keeps the record count odd whenever the memory check is due",
  "the memory check is skipped over and over, the buffered data grows beyond the limit",
  [(W + "tsfile_writer.rs", """        if self.record_count >= self.record_count_for_next_mem_check {
            let mem_size""", """        // every other record is enough
        if self.record_count >= self.record_count_for_next_mem_check && self.record_count & 1 == 0 {
            let mem_size""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("d", "a", Ty::I64, Enc::Plain, Comp::Raw), ser("d", "b", Ty::I64, Enc::Plain, Comp::Raw), ser("d", "c", Ty::I64, Enc::Plain, Comp::Raw)];
    let p = path("a");
    let mut w = tsfile_writer::writer::tsfile_writer::TsFileWriter::new(p, schema(&sch), Default::default()).map_err(|e| format!("{e:?}"))?;
    w.write("d", "a", 0, Val::L(0).api()).map_err(|e| format!("{e:?}"))?;
    for i in 1..10_000_000_i64 {
        let v: Vec<_> = ["a", "b"].iter().map(|s| tsfile_writer::writer::tsfile_writer::DataPoint::new(s, Val::L(noise(i as u64) as i64).api())).collect();
        w.write_many("d", i, v).map_err(|e| format!("{e:?}"))?;
    }
    let n = std::fs::metadata(p).map_err(|e| e.to_string())?.len();
    if n < 100_000_000 {
        return Err(format!("160 MB accepted, {n} bytes in the file"));
    }
    Ok(())
}
""")

plant("c16-checked-with-memory", "C16",
  "a write after close, before the next memory check is due",
  "writes to a closed file are reported as successful and their points are nowhere",
  [(W + "tsfile_writer.rs", """    ) -> Result<(), TsFileError> {
        self.check_writable()?;
        match self.group_writers.get_mut(device) {
""", """    ) -> Result<(), TsFileError> {
        self.check_not_failed()?;
        match self.group_writers.get_mut(device) {
"""),
  (W + "tsfile_writer.rs", """        if self.record_count >= self.record_count_for_next_mem_check {
            let mem_size""", """        // no need to look at the state of the file for every record
        let due = self.record_count >= self.record_count_for_next_mem_check;
        if due {
            self.check_writable()?;
            let mem_size""")],
"""pub fn demo() -> Result<(), String> {
    let sch = [ser("d", "a", Ty::I64, Enc::Plain, Comp::Raw)];
    let p = path("a");
    let mut w = tsfile_writer::writer::tsfile_writer::TsFileWriter::new(p, schema(&sch), Default::default()).map_err(|e| format!("{e:?}"))?;
    w.write("d", "a", 0, Val::L(0).api()).map_err(|e| format!("{e:?}"))?;
    w.close().map_err(|e| format!("{e:?}"))?;
    match w.write("d", "a", 1, Val::L(0).api()) {
        Ok(()) => Err("a write to a closed file succeeded".into()),
        Err(_) => Ok(()),
    }
}
""")

plant("c11-scratch-between-locks", "C11",
  "two writers that complete pages at the same time on two threads: the scratch buffer is released between filling and reading it",
  "a page holds the time column of another writer's page",
  [(W + "chunk_writer.rs", """        let mut time_buffer = vec![];
        self.time_encoder.serialize(&mut time_buffer);
        crate::writer::write_var_u32(time_buffer.len() as u32, &mut self.buffer);
        self.buffer.write_all(time_buffer.as_slice());
""", """        // one buffer for all pages
        static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
        {
            let mut time_buffer = SCRATCH.lock().unwrap();
            time_buffer.clear();
            self.time_encoder.serialize(&mut time_buffer);
        }
        let time_buffer = SCRATCH.lock().unwrap();
        crate::writer::write_var_u32(time_buffer.len() as u32, &mut self.buffer);
        self.buffer.write_all(time_buffer.as_slice());
""")],
"""pub fn demo() -> Result<(), String> {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let run = move |k: i64| -> Result<(), String> {
        let sch: Vec<Ser> = (0..60).map(|i| ser("d", leak(format!("s{i}")), Ty::I64, Enc::Plain, Comp::Raw)).collect();
        let mut n = 0;
        while std::time::Instant::now() < end && n < 400 {
            n += 1;
            let ops = (1..4).flat_map(|j| sch.iter().map(move |s| Op::W(s.dev, s.sen, j * (5 << (k * 3)), Val::L(j)))).collect::<Vec<_>>();
            let (b, m) = file(&format!("f{k}"), &sch, ops)?;
            verify::round_trip(&b, &m)?;
        }
        Ok(())
    };
    let h: Vec<_> = (0..6).map(|k| std::thread::spawn(move || run(k))).collect();
    h.into_iter().map(|h| h.join().map_err(|_| "panic".to_string())?).collect()
}
""")

# ---------------------------------------------------------------- C24
PYDEMO = """#!/bin/bash
# Uses the Python classes in an interpreter that fills freed memory; exit 0: they work
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
export PATH="/root/.cargo/bin:$PATH"
CARGO_TARGET_DIR="$W/build" cargo build --offline --quiet --manifest-path "$R/tsfile-writer-c/Cargo.toml" 2> "$W/log" || { cat "$W/log"; exit 3; }
mkdir -p "$W/tsfile-writer-c" "$W/target/release"
cp "$W"/build/debug/libtsfile_writer_c.so "$W/target/release/libtsfile_writer_c.dylib" || exit 3
cp "$R"/tsfile-writer-c/*.py "$W/tsfile-writer-c/"
cd "$W/tsfile-writer-c" && PYTHONPATH=. PYTHONMALLOC=debug MALLOC_PERTURB_=165 timeout 100 python3-vt "$D/use.py" "$W"
"""
PYUSE = """import sys, os
sys.dont_write_bytecode = True
os.chdir(os.path.join(sys.argv[1], "tsfile-writer-c"))
import rust
n = 0
def path():
    global n
    n += 1
    return os.path.join(sys.argv[1], "f%d" % n)
def text(s):
    return "".join(list(s))
def plain(points):
    p = path()
    s = rust.Schema("root.sg", "s1", 1, 0, 0)
    w = rust.TsFileWriter(p, s)
    for t, v in points:
        w.write_int("root.sg", "s1", t, v)
    w.close()
    s.free()
    return open(p, "rb").read()
def bad(m):
    print(m)
    sys.exit(1)
"""
PY = "tsfile-writer-c/rust.py"
PLANTS.append(dict(id="c24-names-go-with-schema", property="C24", kit=False,
  needs="a writer that is used after its schema was freed, and memory that is used again in between",
  breaks="freeing the schema releases the strings its writers' tables point to: wrong names in the file, refused writes, aborts",
  edits=[(PY, """            lib.schema_free(self.instance)
            self.instance = None
""", """            lib.schema_free(self.instance)
            self.instance = None
            # the strings the schema was created from are not needed any more
            self.variable_holder = VariableHolder()
""")],
  files={"demo.sh": PYDEMO, "use.py": PYUSE + """
for late in (0, 1, 5):
    p = path()
    s = rust.Schema(text("root.sg"), text("s1"), 1, 0, 0)
    w = rust.TsFileWriter(p, s)
    for t in range(late):
        w.write_int(text("root.sg"), text("s1"), t, t)
    s.free()
    junk = [bytes([65 + i % 26]) * 8 for i in range(1000)]
    for t in range(late, 9):
        w.write_int(text("root.sg"), text("s1"), t, t)
    w.close()
    if open(p, "rb").read() != plain([(t, t) for t in range(9)]):
        bad("file differs")
print("holds")
"""}))
PLANTS.append(dict(id="c24-block-left-by-exception", property="C24", kit=False,
  needs="a with block of a writer that is left through an exception",
  breaks="the writer is not closed, the points accepted before the exception are not in the file",
  edits=[(PY, """    def __exit__(self, exc_type, exc_value, exc_traceback):
        self.close()
""", """    def __exit__(self, exc_type, exc_value, exc_traceback):
        # no need to finish a file that is given up
        if exc_type is None:
            self.close()
""")],
  files={"demo.sh": PYDEMO, "use.py": PYUSE + """
for stop in range(4):
    p = path()
    try:
        with rust.Schema("root.sg", "s1", 1, 0, 0) as s:
            with rust.TsFileWriter(p, s) as w:
                for t in range(3):
                    if t == stop:
                        raise KeyError()
                    w.write_int("root.sg", "s1", t, t)
    except KeyError:
        pass
    if open(p, "rb").read() != plain([(t, t) for t in range(min(stop, 3))]):
        bad("left before point %d: file differs" % stop)
print("holds")
"""}))
PLANTS.append(dict(id="c24-value-wraps", property="C24", kit=False,
  needs="a value outside the 32-bit range",
  breaks="it is stored as another value instead of being refused",
  edits=[(PY, """                                        timestamp, value)
""", """                                        timestamp, self.to_int32(value))
"""), (PY, """    def write_int(self, devide_id""", """    @staticmethod
    def to_int32(value):
        # unsigned values share the bits of the signed ones
        return value - (1 << 32) if value >> 31 == 1 else value

    def write_int(self, devide_id""")],
  files={"demo.sh": PYDEMO, "use.py": PYUSE + """
p = path()
s = rust.Schema("root.sg", "s1", 1, 0, 0)
w = rust.TsFileWriter(p, s)
points = [(5, -1), (6, 2**31 - 1), (7, -2**31), (2**31 - 1, 0)]
for t, v in points:
    w.write_int("root.sg", "s1", t, v)
    for x in (2**31, 2**32 - 1, -2**31 - 1, 2**32, 2**64):
        try:
            w.write_int("root.sg", "s1", t + 1, x)
        except OverflowError:
            continue
        bad("%d is accepted" % x)
w.close()
s.free()
if open(p, "rb").read() != plain(points):
    bad("file differs")
print("holds")
"""}))

# C25: the protocol module is compiled on its own
PROTO = "tsfile-writer/src/sync/sync.rs"
PROTODEMO = r'''#!/bin/bash
# Compiles the protocol module of the repository in the current directory with use.rs and runs it.
# Exit 0: the property holds.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$R/tsfile-writer/src/sync/sync.rs" "$W/src/sync.rs"
cp "$D/use.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
thrift = "0.14.1"
X
cp "$R/Cargo.lock" "$W/Cargo.lock"
cd "$W" || exit 3
export PATH="/root/.cargo/bin:$PATH"
RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR="$W/target" cargo build --offline --quiet || exit 3
timeout 200 "$W/target/debug/demo"
'''
PROTOUSE = r'''mod sync;
use sync::*;
use std::cell::RefCell;
use std::io::{Cursor, Read, Write};
use std::rc::Rc;
use thrift::protocol::*;
use thrift::server::TProcessor;
use thrift::{ApplicationError, ApplicationErrorKind, Error};

struct H(RefCell<Vec<String>>);
impl H {
    fn go(&self, s: String) -> thrift::Result<SyncStatus> {
        self.0.borrow_mut().push(s.clone());
        match s.strip_prefix("app") {
            Some(_) => Err(Error::Application(ApplicationError::new(ApplicationErrorKind::InternalError, s))),
            None => Ok(SyncStatus::new(s.len() as i32, s)),
        }
    }
}
impl SyncServiceSyncHandler for H {
    fn handle_check(&self, i: ConfirmInfo) -> thrift::Result<SyncStatus> { self.go(i.uuid.unwrap()) }
    fn handle_start_sync(&self) -> thrift::Result<SyncStatus> { self.go("start".into()) }
    fn handle_init(&self, s: String) -> thrift::Result<SyncStatus> { self.go(s) }
    fn handle_sync_deleted_file_name(&self, s: String) -> thrift::Result<SyncStatus> { self.go(s) }
    fn handle_init_sync_data(&self, s: String) -> thrift::Result<SyncStatus> { self.go(s) }
    fn handle_sync_data(&self, b: Vec<u8>) -> thrift::Result<SyncStatus> { self.go(String::from_utf8(b).unwrap()) }
    fn handle_check_data_digest(&self, s: String) -> thrift::Result<SyncStatus> { self.go(s) }
    fn handle_end_sync(&self) -> thrift::Result<SyncStatus> { self.go("end".into()) }
}
type Bytes = Rc<RefCell<Cursor<Vec<u8>>>>;
struct In(Bytes);
impl Read for In {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.borrow_mut().read(b) }
}
/// answers every request when it is flushed
struct Out(Vec<u8>, Bytes, SyncServiceSyncProcessor<H>);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> {
        let request = std::mem::take(&mut self.0);
        let mut answer = vec![];
        let _ = self.2.process(&mut TBinaryInputProtocol::new(Cursor::new(request), true), &mut TBinaryOutputProtocol::new(&mut answer, true));
        let mut c = self.1.borrow_mut();
        let at = c.position() as usize;
        let rest = c.get_ref()[at..].to_vec();
        *c = Cursor::new([rest, answer].concat());
        Ok(())
    }
}
type C = SyncServiceSyncClient<TBinaryInputProtocol<In>, TBinaryOutputProtocol<Out>>;
fn client() -> C {
    let b: Bytes = Default::default();
    let p = SyncServiceSyncProcessor::new(H(RefCell::new(vec![])));
    SyncServiceSyncClient::new(TBinaryInputProtocol::new(In(b.clone()), true), TBinaryOutputProtocol::new(Out(vec![], b, p), true))
}
fn is(r: thrift::Result<SyncStatus>, s: &str) {
    let good = match &r {
        Ok(x) => !s.starts_with("app") && x.code == s.len() as i32 && x.msg == s,
        Err(Error::Application(e)) => s.starts_with("app") && e.kind == ApplicationErrorKind::InternalError && e.message == s,
        _ => false,
    };
    if !good {
        println!("BROKEN: {s:?}: {r:?}");
        std::process::exit(1);
    }
}
'''
PLANTS.append(dict(id="c25-early-stop", property="C25", kit=False,
  needs="several calls over a connection without frames, or an answer with a further field",
  breaks="reading a status ends before its end marker, the next answer on the connection is misread",
  edits=[(PROTO, """          f_2 = Some(val);
        },
        _ => {
          i_prot.skip(field_ident.field_type)?;
        },
      };
      i_prot.read_field_end()?;
    }
    i_prot.read_struct_end()?;
    verify_required_field_exists("SyncStatus.code", &f_1)?;""", """          f_2 = Some(val);
        },
        _ => {
          i_prot.skip(field_ident.field_type)?;
        },
      };
      i_prot.read_field_end()?;
      if f_1.is_some() && f_2.is_some() {
        // nothing else to look for
        break;
      }
    }
    i_prot.read_struct_end()?;
    verify_required_field_exists("SyncStatus.code", &f_1)?;""")],
  files={"demo.sh": PROTODEMO, "use.rs": PROTOUSE + """
fn main() {
    let mut c = client();
    for n in 0..4 {
        is(c.start_sync(), "start");
        is(c.init(format!("root.{n}")), &format!("root.{n}"));
        is(c.sync_data(vec![b'x'; n]), &"x".repeat(n));
    }
}
"""}))
PLANTS.append(dict(id="c25-digest-error-kind", property="C25", kit=False,
  needs="the handler of checkDataDigest refuses with an application error of a kind other than unknown",
  breaks="the caller gets another kind of error",
  edits=[(PROTO, """            let message_ident = TMessageIdentifier::new("checkDataDigest", TMessageType::Exception, incoming_sequence_number);
            o_prot.write_message_begin(&message_ident)?;
            thrift::Error::write_application_error_to_out_protocol(&app_err, o_prot)?;""", """            let message_ident = TMessageIdentifier::new("checkDataDigest", TMessageType::Exception, incoming_sequence_number);
            o_prot.write_message_begin(&message_ident)?;
            let app_err = ApplicationError { kind: ApplicationErrorKind::Unknown, ..app_err };
            thrift::Error::write_application_error_to_out_protocol(&app_err, o_prot)?;""")],
  files={"demo.sh": PROTODEMO, "use.rs": PROTOUSE + """
fn main() {
    let mut c = client();
    is(c.check_data_digest("abc".into()), "abc");
    is(c.check_data_digest("app".into()), "app");
    is(c.sync_deleted_file_name("app2".into()), "app2");
    is(c.end_sync(), "end");
}
"""}))

plant("c10-page-age", "C10",
  "points of a series arriving more than two seconds apart",
  "the open page is sealed because of its age: the same points give other bytes when written slowly",
  [(W + "chunk_writer.rs", """    point_number: u32,
    // Necessary for writing
    buffer: Vec<u8>,
""", """    point_number: u32,
    opened: std::time::Instant,
    // Necessary for writing
    buffer: Vec<u8>,
"""), (W + "chunk_writer.rs", """            buffer: Vec::with_capacity(65536),
            point_number: 0,
""", """            buffer: Vec::with_capacity(65536),
            opened: std::time::Instant::now(),
            point_number: 0,
"""), (W + "chunk_writer.rs", """        self.value_encoder.reset();
        self.point_number = 0;
""", """        self.value_encoder.reset();
        self.opened = std::time::Instant::now();
        self.point_number = 0;
"""), (W + "chunk_writer.rs", """        if page_writer.point_number > MAX_NUMBER_OF_POINTS_IN_PAGE {
            self.write_page_to_buffer();
""", """        if page_writer.point_number > MAX_NUMBER_OF_POINTS_IN_PAGE
            || page_writer.opened.elapsed().as_secs() >= 2
        {
            self.write_page_to_buffer();
""")],
"""pub fn demo() -> Result<(), String> {
    let sch = vec![ser("root.d", "s", Ty::I32, Enc::Plain, Comp::Raw)];
    let ops = || (0..5).map(|t| Op::W("root.d", "s", t, Val::I(t as i32)));
    let (fast, _) = file("a", &sch, ops())?;
    let (slow, _) = file("b", &sch, ops().enumerate().map(|(k, o)| {
        if k == 3 {
            std::thread::sleep(std::time::Duration::from_millis(2500));
        }
        o
    }))?;
    if fast != slow {
        return Err("the same points, written slowly, give another file".into());
    }
    Ok(())
}
""")
PLANTS.append(dict(id="c25-unsent-call", property="C25", kit=False,
  needs="the transport fails when a request for a data digest is flushed, and an answer with the right number is readable (the receiver answered ahead, or the failure came after the bytes had left)",
  breaks="a call that failed to be sent returns a status",
  edits=[(PROTO, """        let message_ident = TMessageIdentifier::new("checkDataDigest", TMessageType::Call, self.sequence_number());
        let call_args = SyncServiceCheckDataDigestArgs { md5 };
        self.o_prot_mut().write_message_begin(&message_ident)?;
        call_args.write_to_out_protocol(self.o_prot_mut())?;
        self.o_prot_mut().write_message_end()?;
        self.o_prot_mut().flush()
""", """        let message_ident = TMessageIdentifier::new("checkDataDigest", TMessageType::Call, self.sequence_number());
        let call_args = SyncServiceCheckDataDigestArgs { md5 };
        self.o_prot_mut().write_message_begin(&message_ident)?;
        call_args.write_to_out_protocol(self.o_prot_mut())?;
        self.o_prot_mut().write_message_end()?;
        // the receiver tells if something is missing
        let _ = self.o_prot_mut().flush();
        Ok::<(), thrift::Error>(())
""")], files={"demo.sh": PROTODEMO, "use.rs": r'''mod sync;
use sync::*;
use std::io::{Read, Write};
use thrift::protocol::*;

/// An answer that arrived in any case
fn answer(name: &str) -> Vec<u8> {
    let mut b = vec![];
    let mut o = TBinaryOutputProtocol::new(&mut b, true);
    o.write_message_begin(&TMessageIdentifier::new(name, TMessageType::Reply, 1)).unwrap();
    o.write_field_begin(&TFieldIdentifier::new("success", TType::Struct, 0)).unwrap();
    SyncStatus::new(1, "fine".to_string()).write_to_out_protocol(&mut o).unwrap();
    o.write_field_stop().unwrap();
    o.write_message_end().unwrap();
    drop(o);
    b
}
/// Fails when something is flushed, or not
struct Out(bool);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> {
        match self.0 {
            true => Err(std::io::ErrorKind::BrokenPipe.into()),
            false => Ok(()),
        }
    }
}
fn client(name: &str, fails: bool) -> SyncServiceSyncClient<TBinaryInputProtocol<Box<dyn Read>>, TBinaryOutputProtocol<Out>> {
    SyncServiceSyncClient::new(TBinaryInputProtocol::new(Box::new(std::io::Cursor::new(answer(name))), true), TBinaryOutputProtocol::new(Out(fails), true))
}
fn main() {
    for fails in [false, true] {
        let r = [
            client("init", fails).init("root.sg".to_string()).is_err(),
            client("syncData", fails).sync_data(vec![1, 2]).is_err(),
            client("checkDataDigest", fails).check_data_digest("abc".to_string()).is_err(),
            client("endSync", fails).end_sync().is_err(),
        ];
        if r != [fails; 4] {
            println!("BROKEN: sending fails: {fails}, calls fail: {r:?}");
            std::process::exit(1);
        }
    }
}
'''}))

plant("c26-refused-sender-kept", "C26",
  "handshakes that are refused (the receiver answers with another code or breaks off), several times in one process",
  "a sender whose handshake fails is not dropped: its connection stays open and its memory allocated",
  [(S + "sync_sender.rs", """        sender._connect()?;

        Ok(sender)
""", """        match sender._connect() {
            Ok(()) => Ok(sender),
            Err(e) => {
                // nothing to say goodbye to, the receiver did not accept us
                std::mem::forget(sender);
                Err(e)
            }
        }
""")], THRIFT.split("/// whether")[0].replace("fn answer", "#[allow(dead_code)]\nfn answer") + """
fn open() -> usize { std::fs::read_dir("/proc/self/fd").unwrap().count() }
fn refused(n: usize, code: Option<i32>) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap().to_string();
    let h = std::thread::spawn(move || for _ in 0..n {
        let (mut s, _) = l.accept().unwrap();
        let _ = frame(&mut s);
        let _ = s.write_all(&answer("check", 1, code));
    });
    for _ in 0..n {
        assert!(SyncSender::new(&addr, Some("127.0.0.1"), Some("0123456789abcdef0123456789abcdef")).is_err());
    }
    h.join().unwrap();
}
pub fn demo() -> Result<(), String> {
    refused(2, Some(-1));
    for code in [Some(-1), Some(0), None] {
        let before = open();
        refused(20, code);
        let after = open();
        if after >= before + 10 { return Err(format!("{before} open files before 20 refused handshakes, {after} after them")) }
    }
    Ok(())
}
""", SYNC)
PLANTS.append(dict(id="c26-unfinished-file-kept", property="C26", kit=False,
  needs="a C caller that closes a writer whose file cannot be completed (disk full), and goes on",
  breaks="the writer and its open file are never given back when closing fails",
  edits=[("tsfile-writer-c/src/lib.rs", """        let mut _b = unsafe { Box::from_raw(writer) };
        _b.close();
""", """        let mut _b = unsafe { Box::from_raw(writer) };
        // a file that could not be finished stays as it is
        if _b.close().is_err() {
            Box::leak(_b);
        }
""")],
  files={"demo.sh": open("/verif/seeded/c23-writer-shares-schema/demo.sh").read().replace("# Uses the C interface from python under a checking allocator; exit 0: legal calls work", "# Closes writers on a full disk; exit 0: their files are closed").replace("MALLOC_PERTURB_=165 MALLOC_CHECK_=3 ", ""), "use.py": """import ctypes, os, resource, signal, sys
lib = ctypes.CDLL(sys.argv[1]); os.chdir(sys.argv[2])
P = ctypes.c_void_p
lib.schema_simple.restype = lib.file_writer_new.restype = lib.file_writer_write_int32.restype = P
lib.file_writer_close.restype = lib.schema_free.restype = None
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
os.mkdir("x")
def opened(): return len(os.listdir("/proc/self/fd"))
def once(limit):
    s = lib.schema_simple(b"d", b"s", 1, 0, 0)
    w = lib.file_writer_new(b"./x/f", P(s))
    for t in range(5):
        w = lib.file_writer_write_int32(P(w), b"d", b"s", ctypes.c_long(t), t)
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    if limit: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    lib.file_writer_close(P(w))
    resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
    lib.schema_free(P(s))
for limit in (0, 20, 60, 100):
    once(limit)
    before = opened()
    for i in range(20): once(limit)
    if opened() >= before + 10:
        print("files stay open", limit, before, opened())
        sys.exit(1)
print("holds")
"""}))
