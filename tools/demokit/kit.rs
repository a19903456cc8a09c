use crate::model::*;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::tsfile_writer::{DataPoint, TsFileWriter};
use tsfile_writer::writer::Schema;

/// A path in the scratch directory (the working directory of the demonstration)
pub fn path(n: &str) -> Name {
    let d = std::env::current_dir().unwrap();
    leak(format!("{}/data/{n}", d.display()))
}

pub fn schema(sch: &[Ser]) -> Schema<'static> {
    let mut devs: Vec<Name> = vec![];
    for s in sch {
        if !devs.contains(&s.dev) {
            devs.push(s.dev);
        }
    }
    let mut b = TsFileSchemaBuilder::new();
    for d in devs {
        let mut db = DeviceBuilder::new();
        for s in sch.iter().filter(|s| s.dev == d) {
            db.add(s.sen, s.ty.api(), s.enc.api(), s.comp.api());
        }
        b.add(d, db.build());
    }
    b.build()
}

/// Writes the history to a file; results must be those of the model. Bytes and model.
pub fn file(name: &str, sch: &[Ser], ops: impl IntoIterator<Item = Op>) -> Result<(Vec<u8>, Model), String> {
    let p = path(name);
    let mut m = Model::new(sch);
    let mut w = TsFileWriter::new(p, schema(sch), Default::default()).map_err(|e| format!("{e:?}"))?;
    for o in ops {
        let want = m.step(&o).is_empty();
        let r = match &o {
            Op::W(d, s, t, v) => w.write(d, s, *t, v.api()),
            Op::M(d, t, ps) => {
                let v: Vec<DataPoint> = ps.iter().map(|(s, v)| DataPoint::new(s, v.api())).collect();
                w.write_many(d, *t, v)
            }
            Op::Close => w.close(),
        };
        if r.is_ok() != want {
            return Err(format!("{}: {r:?}, but must be {}", show_ops(&[o]), if want { "accepted" } else { "refused" }));
        }
    }
    w.close().map_err(|e| format!("close: {e:?}"))?;
    drop(w);
    Ok((std::fs::read(p).map_err(|e| e.to_string())?, m))
}

pub fn noise(i: u64) -> u64 {
    let mut x = i.wrapping_add(0x9E3779B97F4A7C15).wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 29;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 32)
}
