//! Exhaustive enumeration of operation histories over a small alphabet.
use crate::ctx::Ctx;
use crate::drive::*;
use crate::model::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T {
    /// relative to the last accepted timestamp of the series (-1 when there is none)
    Plus(i64),
    Abs(i64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    /// a value that depends on how many points were written before
    Auto,
    Is(Val),
}

#[derive(Clone, Debug)]
pub enum A {
    W(Name, Name, T, V),
    M(Name, T, Vec<(Name, V)>),
    /// write_many of `n` points of one series is not possible; n single writes are
    Burst(Name, Name, usize),
    Close,
}

pub struct Case<'a> {
    pub sch: &'a [Ser],
    pub ops: Vec<Op>,
    pub why: Vec<Vec<Why>>,
    pub model: Model,
}

fn auto(ty: Ty, n: usize) -> Val {
    let k = (n as i64 * 37 + 5) % 101 - 50;
    match ty {
        Ty::I32 => Val::I((k * if n % 5 == 3 { 7_000_000 } else { 1 }) as i32),
        Ty::I64 => Val::L(k * if n % 5 == 3 { 1 << 40 } else { 1 }),
        Ty::F32 => Val::f(k as f32 / 4.0),
    }
}

impl<'a> Case<'a> {
    pub fn new(sch: &'a [Ser]) -> Case<'a> {
        Case { sch, ops: vec![], why: vec![], model: Model::new(sch) }
    }

    fn time(&self, dev: Name, sens: &[Name], t: T) -> i64 {
        match t {
            T::Abs(x) => x,
            T::Plus(k) => {
                let l = sens.iter().map(|s| self.model.last(dev, s).unwrap_or(-1)).max().unwrap_or(-1);
                l.saturating_add(k)
            }
        }
    }

    fn val(&self, dev: Name, sen: Name, v: V) -> Val {
        match v {
            V::Is(v) => v,
            V::Auto => match self.model.find(dev, sen) {
                Some(s) => {
                    let n: usize = self.model.pts.values().map(|p| p.len()).sum();
                    auto(s.ty, n)
                }
                None => Val::I(1),
            },
        }
    }

    pub fn push_op(&mut self, op: Op) {
        self.why.push(self.model.step(&op));
        self.ops.push(op);
    }

    pub fn push(&mut self, a: &A) {
        match a {
            A::W(d, s, t, v) => {
                let op = Op::W(d, s, self.time(d, &[s], *t), self.val(d, s, *v));
                self.push_op(op);
            }
            A::M(d, t, ps) => {
                let names: Vec<Name> = ps.iter().map(|p| p.0).collect();
                let t = self.time(d, &names, *t);
                let op = Op::M(d, t, ps.iter().map(|(s, v)| (*s, self.val(d, s, *v))).collect());
                self.push_op(op);
            }
            A::Burst(d, s, n) => {
                for _ in 0..*n {
                    self.push(&A::W(d, s, T::Plus(1), V::Auto));
                }
            }
            A::Close => self.push_op(Op::Close),
        }
    }
}

/// All sequences over `alpha` of length 0..=depth, each as one case.
pub fn all(
    ctx: &Ctx,
    name: &str,
    sch: &[Ser],
    alpha: &[A],
    depth: usize,
    f: impl Fn(&Case) -> Result<(), String> + Sync,
) {
    all_from(ctx, name, sch, &[], alpha, 0, depth, f)
}

/// The same, every sequence preceded by `pre`, lengths from..=depth.
#[allow(clippy::too_many_arguments)]
pub fn all_from(
    ctx: &Ctx,
    name: &str,
    sch: &[Ser],
    pre: &[A],
    alpha: &[A],
    from: usize,
    depth: usize,
    f: impl Fn(&Case) -> Result<(), String> + Sync,
) {
    let n = alpha.len();
    for len in from..=depth {
        let total = n.pow(len as u32);
        ctx.part(&format!("{name} length {len}"), total as u64);
        ctx.par(total, |mut i| {
            let idx = i;
            let key = || format!("{name}/{len}/{idx}");
            ctx.case(key, || {
                let mut c = Case::new(sch);
                for a in pre {
                    c.push(a);
                }
                for _ in 0..len {
                    c.push(&alpha[i % n]);
                    i /= n;
                }
                ctx.steps(c.ops.len());
                ctx.state(c.model.fingerprint());
                let r = f(&c).map_err(|e| {
                    format!("{e} -- schema {:?}; history: {}", c.sch, show_ops(&c.ops))
                });
                if idx == total / 3 && len == depth {
                    ctx.sample(|| format!("{name}: {}", show_ops(&c.ops)));
                }
                r
            });
        });
        if ctx.stop() {
            return;
        }
    }
}

/// Runs the case (closing at the end if the history did not) and checks every result.
/// Returns the bytes.
pub fn conform(c: &Case, sink: &Sink, degree: Option<usize>) -> Result<Vec<u8>, String> {
    let mut ops = c.ops.clone();
    let mut why = c.why.clone();
    if !c.model.closed {
        ops.push(Op::Close);
        why.push(vec![]);
    }
    let rs = run(c.sch, &ops, sink, degree);
    for (i, r) in rs.iter().enumerate() {
        let w = why.get(i).cloned().unwrap_or_default();
        if !agrees(r, &w) {
            return Err(format!(
                "operation {i} ({}): {}, got {r:?}",
                show_ops(&ops[i..i + 1]),
                if w.is_empty() { "must succeed".to_string() } else { format!("must be refused for {w:?}") },
            ));
        }
    }
    if rs.len() != ops.len() {
        return Err(format!("writer could not be created: {:?}", rs.last()));
    }
    Ok(sink.bytes())
}

// ---------------------------------------------------------------- common schemas

pub const KINDS: [(Ty, Enc); 5] = [
    (Ty::I64, Enc::Plain),
    (Ty::I64, Enc::Diff),
    (Ty::I32, Enc::Plain),
    (Ty::I32, Enc::Diff),
    (Ty::F32, Enc::Plain),
];
pub const COMPS: [Comp; 2] = [Comp::Raw, Comp::Snappy];

pub fn configs() -> Vec<(Ty, Enc, Comp)> {
    let mut v = vec![];
    for (t, e) in KINDS {
        for c in COMPS {
            v.push((t, e, c));
        }
    }
    v
}

/// Two devices, three series of different kinds, same sensor name on both devices
pub fn mixed(i: usize) -> Vec<Ser> {
    let c = configs();
    let g = |k: usize| c[k % c.len()];
    let (a, b, d) = (g(i), g(i + 3), g(i + 6));
    vec![
        ser("d1", "s1", a.0, a.1, a.2),
        ser("d1", "s2", b.0, b.1, b.2),
        ser("d2", "s1", d.0, d.1, d.2),
    ]
}

/// Names that stress ordering, byte lengths and separators: cases, digits, dots, every width of
/// UTF-8, prefixes of each other, lengths at the boundaries of the length's encoding.
pub fn names() -> Vec<Name> {
    let mut v: Vec<Name> = vec![
        "", "a", "A", "B", "b", "Z", "_x", "0", "10", "9", "s9", "s10", "s1", "a.b", "a.b.c", "b.c", ".", "a.", ".a", " ",
        "a b", "a!", "root.sg1.d-1", "ROOT.sg1", "\u{e9}", "\u{c9}", "e\u{301}", "a\u{e9}", "\u{e9}a", "\u{7ff}", "\u{800}", "\u{ffff}",
        "\u{10000}", "\u{10ffff}", "Gr\u{f6}\u{df}e", "\u{6e29}\u{5ea6}", "\u{1f321}\u{fe0f}", "\0", "\u{7f}", "\u{80}", "a/b", "a\\b", "'", "\"", "\n", "%s",
        " a", "a ", "\ta", "a\n", "a\r\n", "\u{feff}a", "\u{a0}", "a\0", "\0a", "*", "**", "..", "a..b", "`a`", "root", "root.", "time", "-1",
        "+1", "01", "1e3", "null", "\u{131}", "\u{212a}", "k", "K", "\u{df}", "ss",
    ];
    for n in [31usize, 32, 63, 64] {
        v.push(leak("l".repeat(n)));
        v.push(leak("\u{e9}".repeat(n)));
        v.push(leak("\u{6e29}".repeat(n)));
    }
    v
}
