//! Output monitors.
//! C08: all targets receive the same bytes, appended in order.
//! C16: segmented builders and buffers conserve content, order and boundaries.
use mon::hist::ints_in;
use mon::model;
use mon::ops::{universe, AnyT, TyOps, NTARGETS, TARGET_NAMES};
use mon::prng::{hash_bytes, hinted, roomy, Rng};
use mon::rep::{hex, Ctx};
use std::borrow::Borrow;
use std::hash::{Hash, Hasher};
use std::io::Write;
use tedium::conv::target::Target;
use tedium::parse::cleanup::LeftoverState;
use tedium::*;

#[global_allocator]
static A: mon::alloc::Counting = mon::alloc::Counting;

/// one step of an output history
#[derive(Clone, Debug)]
enum Step {
    One(u8),
    Many(usize, Vec<u8>),
    All(Vec<u8>),
    Resolve,
    ResolveZero,
    Hint(usize),
    /// io::Write on the targets which implement it
    Io(Vec<u8>),
    Flush,
    /// (type index, encoded form of the value); the value is regenerated from the seed
    Value(usize, u64, usize),
}

fn gen_step(r: &mut Rng, ntypes: usize, values: bool, big: bool) -> Step {
    match r.below(if values { 14 } else { 10 }) {
        0 | 1 => Step::One(r.u8()),
        2 | 3 => {
            let n = if r.chance(2, 3) { *r.pick(&[0usize, 1, 2, 3, 8]) } else { *r.pick(MANY) };
            Step::Many(n, r.spicy_bytes(n))
        }
        4 | 5 => {
            let n = if big { r.large() } else { r.long(20) };
            Step::All(r.spicy_bytes(n))
        }
        6 => Step::Resolve,
        7 => Step::ResolveZero,
        8 => Step::Hint(if r.chance(1, 10) { r.large() } else { *r.pick(&[0usize, 1, 7, 100, 255, 256, 1024, 4096, 0x8001]) }),
        9 => {
            if r.chance(1, 3) {
                Step::Flush
            } else {
                let n = if big { r.large() } else { r.long(9) };
                Step::Io(r.spicy_bytes(n))
            }
        }
        _ => Step::Value(r.below(ntypes), r.u64(), r.range(0, 10)),
    }
}

macro_rules! many {
    ($($n:literal)*) => {
        const MANY: &[usize] = &[$($n),*];
        fn push_many<T: Target>(t: &mut T, n: usize, b: &[u8]) -> usize {
            match n {
                $($n => t.push_many::<$n>(b.try_into().unwrap()),)*
                _ => unreachable!(),
            }
        }
    };
}
many!(0 1 2 3 4 5 7 8 9 12 15 16 17 20 24 31 32 33 48 63 64 65 67 72 96 100 128 200 255 256 257 300 1000 4096 65537);

/// content a target shows, by every means it offers
fn contents(t: &AnyT) -> Vec<(&'static str, Vec<u8>)> {
    match t {
        AnyT::V(v) => vec![("vec", v.clone())],
        AnyT::C(_) => vec![],
        AnyT::S(b) => {
            let bs: &[u8] = b.borrow();
            vec![
                ("into_vec", b.clone().into_vec()),
                ("finalize", b.clone().finalize()),
                ("into", b.clone().into()),
                ("borrow", bs.to_vec()),
                ("into_hex", unhex(&b.clone().into_hex())),
            ]
        }
        AnyT::M(b) => vec![
            ("into_vec", b.clone().into_vec()),
            ("finalize", b.clone().finalize().into()),
            ("into", b.clone().into()),
            ("into_hex", unhex(&b.clone().into_hex())),
        ],
        AnyT::H(h) => vec![("as_bytes", h.as_bytes().to_vec()), ("to_string", unhex(&h.to_string())), ("into_inner", h.clone().into_inner())],
    }
}

/// lower-case hex text to bytes; anything else gives a marker no content equals
fn unhex(s: &str) -> Vec<u8> {
    if s.len() % 2 != 0 || !s.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c)) {
        return format!("<not lower-case hex: {s}>").into_bytes();
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn reported_len(t: &AnyT) -> Option<(usize, bool)> {
    match t {
        AnyT::S(b) => Some((b.len(), b.is_empty())),
        AnyT::M(b) => Some((b.len(), b.is_empty())),
        AnyT::V(v) => Some((v.len(), v.is_empty())),
        AnyT::H(h) => Some((h.len(), h.is_empty())),
        AnyT::C(_) => None,
    }
}

fn bin_text(t: &AnyT) -> Option<Result<String, ()>> {
    match t {
        AnyT::S(b) => Some(b.clone().into_bin().map_err(|_| ())),
        AnyT::M(b) => Some(b.clone().into_bin().map_err(|_| ())),
        _ => None,
    }
}

fn c08(c: &mut Ctx, types: &[TyOps], which: usize, r: &mut Rng) {
    // now and then a few huge chunks, or hundreds of small ones
    let big = r.chance(1, 400);
    let many = !big && r.chance(1, 400);
    let nsteps = if many { r.range(240, 560) } else { r.range(1, if big { 6 } else { 12 }) };
    let mut steps: Vec<Step> = (0..nsteps).map(|_| gen_step(r, types.len(), !many, big)).collect();
    c.count("histories of huge chunks", big as u64);
    c.count("histories of hundreds of chunks", many as u64);
    // every type gets its turn
    let at = r.below(steps.len() + 1);
    steps.insert(at, Step::Value(which, r.u64(), r.range(0, 24)));
    let prefix = {
        let n = if r.chance(1, 8000) { r.large() } else { r.size(12) };
        r.bytes(n)
    };
    let start = r.below(3);
    for ti in 0..NTARGETS {
        let mut want: Vec<u8> = vec![];
        let mut t = AnyT::make(ti);
        // a target that already holds something
        if start > 0 {
            let p = prefix.clone();
            t = match ti {
                0 => AnyT::V(p.clone()),
                1 => AnyT::C(Target::create()),
                2 => AnyT::S(if start == 1 { StrictBuilder::from(roomy(&p, 1)) } else { StrictBuilder::promote(StrictBuilder::from(&p[..])) }),
                3 => AnyT::M(if start == 1 { MemoBuilder::from(&p[..]) } else { MemoBuilder::promote(roomy(&p, 2)) }),
                _ => AnyT::H(HexString::from(roomy(&p, 3))),
            };
            want = p;
        }
        for (si, s) in steps.iter().enumerate() {
            let (wb, got): (Vec<u8>, Result<usize, _>) = match s {
                Step::One(b) => (vec![*b], c.guard(|| t.push_one(*b))),
                Step::Many(n, b) => (b.clone(), c.guard(|| push_many(&mut t, *n, b))),
                Step::All(b) => (b.clone(), c.guard(|| t.push_all(b))),
                Step::Resolve => (vec![], c.guard(|| {
                    t.resolve();
                    0
                })),
                Step::ResolveZero => (vec![], c.guard(|| t.resolve_zero())),
                Step::Hint(n) => (vec![], c.guard(|| {
                    t.anticipate(*n);
                    0
                })),
                Step::Flush => (vec![], c.guard(|| match &mut t {
                    AnyT::V(v) => v.flush().map(|_| 0).unwrap_or(999),
                    AnyT::C(v) => v.flush().map(|_| 0).unwrap_or(999),
                    AnyT::S(v) => v.flush().map(|_| 0).unwrap_or(999),
                    AnyT::M(v) => v.flush().map(|_| 0).unwrap_or(999),
                    AnyT::H(v) => v.flush().map(|_| 0).unwrap_or(999),
                })),
                Step::Io(b) => (b.clone(), c.guard(|| match &mut t {
                    AnyT::V(v) => v.write(b).unwrap(),
                    AnyT::C(v) => v.write(b).unwrap(),
                    AnyT::S(v) => v.write(b).unwrap(),
                    AnyT::M(v) => v.write(b).unwrap(),
                    AnyT::H(v) => v.write(b).unwrap(),
                })),
                Step::Value(k, seed, size) => {
                    let k = &types[*k];
                    let v = model::gen(&k.schema, &mut Rng::new(*seed), *size);
                    let Ok(x) = c.guard(|| (k.make)(&v)) else { return };
                    let mut w = vec![];
                    model::encode(&k.schema, &v, &mut w).unwrap();
                    c.count("values encoded into targets", 1);
                    (w, c.guard(|| x.write(&mut t)))
                }
            };
            want.extend(&wb);
            let sname = match s {
                Step::Value(k, ..) => types[*k].name.clone(),
                s => format!("{s:?}").split(['(', ' ']).next().unwrap().to_string(),
            };
            match got {
                Err(p) => return c.violation(format!("{}:{sname}:panic", TARGET_NAMES[ti]), format!("step {si} of {:?}: {}", steps, p.0)),
                Ok(n) if n != wb.len() => {
                    return c.violation(
                        format!("{}:{sname}:count", TARGET_NAMES[ti]),
                        format!("step {si} {:?}: reported {n} bytes, appended {} ({})", s, wb.len(), hex(&wb)),
                    )
                }
                _ => {}
            }
            c.count("steps observed", 1);
            // earlier content is never altered: compare after every step
            let last = si + 1 == steps.len();
            let shown = if last || r.chance(1, if many { 60 } else { 4 }) { c.guard(|| contents(&t)) } else { Ok(t.content().map(|x| ("content", x)).into_iter().collect()) };
            let shown = match shown {
                Ok(s) => s,
                Err(p) => return c.violation(format!("{}:content-panic", TARGET_NAMES[ti]), p.0),
            };
            for (how, got) in shown {
                if got != want {
                    return c.violation(
                        format!("{}:{sname}:{how}", TARGET_NAMES[ti]),
                        format!("after step {si} of {:?}: holds {}, appended {}", steps, hex(&got), hex(&want)),
                    );
                }
            }
            if let Some((n, e)) = reported_len(&t) {
                if n != want.len() || e != want.is_empty() {
                    return c.violation(format!("{}:len", TARGET_NAMES[ti]), format!("len {n} empty {e} for content {}", hex(&want)));
                }
            }
        }
        if let Some(bt) = bin_text(&t) {
            let w = String::from_utf8(want.clone()).map_err(|_| ());
            c.check(bt == w, || format!("{}:into_bin", TARGET_NAMES[ti]), || format!("{}: {:?} vs {:?}", hex(&want), bt, w));
        }
        if ti == 0 {
            c.seen(&want);
            c.sample(|| format!("{:?} -> {}", steps, hex(&want)));
        }
    }
}

/// every way to encode one value, onto targets which already hold something
fn c08_ways(c: &mut Ctx, k: &TyOps, r: &mut Rng) {
    let n = r.size(9);
    c08_onto(c, k, r, n)
}

/// how much a target already holds when a value is appended to it
const HELD: [usize; 22] = [16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 8192, 32767, 65535, 65536, 65537, 131072];

fn c08_onto(c: &mut Ctx, k: &TyOps, r: &mut Rng, n: usize) {
    let size = if r.chance(1, 50) { 280 } else { r.range(0, 14) };
    let v = model::gen(&k.schema, r, size);
    let Ok(x) = c.guard(|| (k.make)(&v)) else { return };
    let mut want = vec![];
    model::encode(&k.schema, &v, &mut want).unwrap();
    let held = r.bytes(n);
    let spare = *r.pick(&[0usize, 0, 1, 3, 64]);
    let mut full = held.clone();
    full.extend(&want);
    c.seen(&full);
    let on = |f: &dyn Fn(&mut Vec<u8>)| {
        let mut b = Vec::with_capacity(held.len() + spare);
        b.extend_from_slice(&held);
        f(&mut b);
        b
    };
    let out = c.guard(|| {
        vec![
            ("write_to_vec", on(&|b| x.write_to_vec(b)), &full),
            ("write_to", on(&|b| {
                let mut t = AnyT::V(std::mem::take(b));
                x.write_direct(&mut t);
                *b = t.content().unwrap();
            }), &full),
            ("write_to_vec-twice", on(&|b| {
                x.write_to_vec(b);
                b.truncate(held.len());
                x.write_to_vec(b)
            }), &full),
            ("to_bytes", x.to_bytes(), &want),
            ("encode", x.encode_vec(), &want),
            ("to_bytes_full", x.to_bytes_full(), &want),
        ]
    });
    match out {
        Ok(l) => {
            for (how, got, want) in l {
                c.check(got == *want, || format!("{}:{how}", k.name), || format!("{v:?} onto {}: {} instead of {}", hex(&held), hex(&got), hex(want)));
            }
        }
        Err(p) => return c.violation(format!("{}:encode-panic", k.name), format!("{v:?}: {}", p.0)),
    }
    for ti in 0..NTARGETS {
        let out = c.guard(|| {
            let t = x.encode_as(ti);
            let mut u = AnyT::make(ti);
            u.push_all(&held);
            let n = x.write_direct(&mut u);
            (t.content(), reported_len(&t), u.content(), n)
        });
        match out {
            Ok((got, len, onto, n)) => {
                let name = TARGET_NAMES[ti];
                c.check(got.as_ref().map_or(true, |g| *g == want), || format!("{}:{name}:encode", k.name), || format!("{v:?}: {got:?} instead of {}", hex(&want)));
                c.check(len.map_or(true, |l| l == (want.len(), want.is_empty())), || format!("{}:{name}:encode-len", k.name), || format!("{v:?}: {len:?}"));
                c.check(onto.as_ref().map_or(true, |g| *g == full), || format!("{}:{name}:append", k.name), || format!("{v:?} onto {}: {onto:?}", hex(&held)));
                c.check(n == want.len(), || format!("{}:{name}:count", k.name), || format!("{v:?}: reported {n}, encoding {}", hex(&want)));
            }
            Err(p) => c.violation(format!("{}:{}:panic", k.name, TARGET_NAMES[ti]), format!("{v:?}: {}", p.0)),
        }
        c.count("direct encodings", 2);
    }
}

/// constructors of builders
fn c08_make(c: &mut Ctx, r: &mut Rng) {
    let n = r.size(16);
    let b = r.spicy_bytes(n);
    let arr: [u8; 3] = [r.u8(), r.u8(), r.u8()];
    let w = r.u8();
    c.seen(&b);
    macro_rules! long {
        ($t:ty, $name:expr; $($n:literal)*) => {
            let pick = if r.chance(1, 12) { *r.pick(&[$($n),*]) } else { 0usize };
            $(if pick == $n {
                let mut arr = [0u8; $n];
                arr.copy_from_slice(&r.spicy_bytes($n));
                let got = c.guard(|| <$t as Builder>::words(arr).into_vec());
                c.check(got.as_ref().is_ok_and(|g| g[..] == arr[..]), || format!("{}:words-long", $name), || format!("an array of {} bytes", $n));
                c.count("builders made of long arrays", 1);
            })*
        };
    }
    macro_rules! builder {
        ($t:ty, $name:expr) => {
            let out = c.guard(|| {
                vec![
                    ("word", <$t as Builder>::word(w).into_vec(), vec![w]),
                    ("words", <$t as Builder>::words(arr).into_vec(), arr.to_vec()),
                    ("words0", <$t as Builder>::words([]).into_vec(), vec![]),
                    ("empty", <$t as Builder>::empty().into_vec(), vec![]),
                    ("create", <$t as Target>::create().into_vec(), vec![]),
                    ("from-vec", <$t>::from(roomy(&b, 1)).into_vec(), b.clone()),
                    ("from-slice", <$t>::from(&b[..]).into_vec(), b.clone()),
                    ("encode", { let x: $t = Encode::encode(&b); x.into_vec() }, b.clone()),
                    ("len", <$t>::from(b.clone()).len().to_be_bytes().to_vec(), b.len().to_be_bytes().to_vec()),
                ]
            });
            match out {
                Ok(v) => {
                    for (what, got, want) in v {
                        c.check(got == want, || format!("{}:{what}", $name), || format!("{} instead of {}", hex(&got), hex(&want)));
                    }
                }
                Err(p) => c.violation(format!("{}:make-panic", $name), p.0),
            }
            // and one made of a long array
            long!($t, $name; 15 16 17 31 32 33 63 64 65 100 127 128 129 255 256 257 512 513 1000 1024 1025 2048 2049 4096 4097 8193 32768 65535 65536 70000);
            let e = c.guard(|| (<$t as Builder>::empty().is_empty(), <$t as Builder>::word(0).is_empty(), <$t as Builder>::words([0, 0]).len()));
            c.check(matches!(e, Ok((true, false, 2))), || format!("{}:is_empty", $name), || format!("{e:?}"));
        };
    }
    builder!(StrictBuilder, "strict");
    builder!(MemoBuilder, "memo");
    // the target-generic macro reports the sum of what its parts wrote
    let x = u30::try_from(r.u64() as u32 & 0x3fff_ffff).unwrap();
    let y = Dynamic::<u8, Bytes>::from(Bytes::from(b.clone()));
    let z = r.chance(1, 2);
    for ti in 0..NTARGETS {
        let mut t = AnyT::make(ti);
        let n = c.guard(|| write_all_to!(x, y, z => &mut t));
        let mut want = x.to_bytes();
        want.extend(y.to_bytes());
        want.extend(z.to_bytes());
        c.check(matches!(&n, Ok(k) if *k == want.len()), || format!("{}:write_all_to:count", TARGET_NAMES[ti]), || format!("{n:?} vs {}", want.len()));
        c.check(t.content().map_or(true, |g| g == want), || format!("{}:write_all_to:bytes", TARGET_NAMES[ti]), || format!("{:?}", t.content()));
    }
}

// ------------------------------------------------------------------------ C16

/// the list of segments: closed ones plus possibly one still being written
#[derive(Clone, Debug, Default, PartialEq)]
struct Segs {
    closed: Vec<Vec<u8>>,
    active: Option<Vec<u8>>,
}

impl Segs {
    fn push(&mut self, b: &[u8]) {
        self.active.get_or_insert_with(Vec::new).extend(b)
    }
    fn split(&mut self) {
        if let Some(a) = self.active.take() {
            self.closed.push(a)
        }
    }
    fn split_force(&mut self) {
        let a = self.active.take().unwrap_or_default();
        self.closed.push(a)
    }
    fn all(&self) -> Vec<Vec<u8>> {
        self.closed.iter().cloned().chain(self.active.iter().cloned()).collect()
    }
    fn content(&self) -> Vec<u8> {
        self.all().concat()
    }
    fn display(&self) -> String {
        let mut s = String::from("[|");
        for x in self.all() {
            s.push_str(&hex(&x));
            s.push('|');
        }
        s.push(']');
        s
    }
}

/// `needle` occurs in `hay` in order
/// the writing macros: what several values written at once come to
fn c08_macros(c: &mut Ctx, r: &mut Rng) {
    let before = { let n = r.below(6); r.bytes(n) };
    let (a, b) = (r.u64() as u16, Dynamic::<u8, Bytes>::try_from(Bytes::from({ let n = r.below(9); r.bytes(n) })));
    let Ok(b) = b else { panic!("harness: short payload") };
    let s: String = (0..r.below(5)).map(|_| *r.pick(&['a', 'é', '🦀'])).collect();
    let (o, z) = (if r.chance(1, 2) { Some(r.u8()) } else { None }, ());
    let enc = |x: &dyn Fn(&mut Vec<u8>)| { let mut v = vec![]; x(&mut v); v };
    let parts = [enc(&|v| { a.write_to(v); }), enc(&|v| { b.write_to(v); }), enc(&|v| { s.write_to(v); }), enc(&|v| { o.write_to(v); })];
    for i in 0..NTARGETS {
        let name = TARGET_NAMES[i];
        let way = r.below(4);
        let got = c.guard(|| {
            let mut t = AnyT::make(i);
            t.push_all(&before);
            let n = match way {
                0 => tedium::write_all_to!(a, b, s, o, z => &mut t),
                1 => tedium::write_all_to!(a, b, s, o, => &mut t),
                2 => a.write_to(&mut t) + b.write_to(&mut t) + s.write_to(&mut t) + o.write_to(&mut t) + tedium::resolve_zero!(&mut t),
                _ => tedium::write_all_to!(=> &mut t) + tedium::write_all_to!(a => &mut t) + tedium::write_all_to!(b, s => &mut t) + tedium::write_all_to!(z, o => &mut t),
            };
            (n, t.content())
        });
        let want: Vec<u8> = before.iter().copied().chain(parts.iter().flatten().copied()).collect();
        let ok = matches!(&got, Ok((n, w)) if *n == want.len() - before.len() && w.as_ref().map_or(true, |w| *w == want));
        c.check(ok, || format!("macro/{name}/{way}"), || format!("{got:?}, expected {}", hex(&want)));
        c.seen(format!("macro{i}{way}{want:?}").as_bytes());
    }
}

fn subsequence(needle: &[u8], hay: &[u64]) -> bool {
    let mut it = hay.iter();
    needle.iter().all(|x| it.any(|y| *y == *x as u64))
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            self.0 = self.0.rotate_left(9) ^ hash_bytes(b).wrapping_mul(0x9E37_79B9_7F4A_7C15)
        }
    }
    let mut h = H(1);
    x.hash(&mut h);
    h.0
}

/// records what an encoding marks, independent of any builder
struct Recorder(Segs);
impl Target for Recorder {
    fn anticipate(&mut self, _: usize) {}
    fn create() -> Self {
        Recorder(Segs::default())
    }
    fn push_one(&mut self, b: u8) -> usize {
        self.0.push(&[b]);
        1
    }
    fn push_many<const N: usize>(&mut self, arr: [u8; { N }]) -> usize {
        self.0.push(&arr);
        { N }
    }
    fn push_all(&mut self, b: &[u8]) -> usize {
        self.0.push(b);
        b.len()
    }
    fn resolve(&mut self) {
        self.0.split()
    }
}

fn memo_history(c: &mut Ctx, r: &mut Rng) -> Option<(MemoBuilder, Segs, String)> {
    let big = r.chance(1, 300);
    let n = if big {
        r.range(1, 4)
    } else if r.chance(1, 500) {
        r.range(240, 1100)
    } else {
        r.size(14)
    };
    let mut m = Segs::default();
    let start = r.below(6);
    let init = {
        let n = r.size(5);
        r.spicy_bytes(n)
    };
    let mut b = match start {
        0 => {
            m.push(&init);
            MemoBuilder::from(roomy(&init, 1))
        }
        1 => {
            m.push(&init);
            MemoBuilder::promote(init.clone())
        }
        2 => {
            m.push(&[7]);
            MemoBuilder::word(7)
        }
        3 => {
            m.push(&[]);
            MemoBuilder::empty()
        }
        4 => MemoBuilder::default(),
        _ => MemoBuilder::new(),
    };
    let mut log = format!("start{start} {}", hex(&init));
    for _ in 0..n {
        if r.chance(1, 20) {
            // go on with a copy, in the state it was taken in
            log.push_str(" Copy");
            let copy = c.guard(|| {
                let k = b.clone();
                (k == b, hash_of(&k) == hash_of(&b), k)
            });
            match copy {
                Ok((eq, hash, k)) => {
                    c.check(eq && hash, || "memo:copy".into(), || format!("{log}: equal {eq}, hash {hash}"));
                    b = k;
                }
                Err(p) => {
                    c.violation("memo:copy-panic", format!("{log}: {}", p.0));
                    return None;
                }
            }
        }
        let s = gen_step(r, 1, false, big);
        log.push_str(&format!(" {s:?}"));
        let out = c.guard(|| match &s {
            Step::One(x) => b.push_one(*x),
            Step::Many(n, x) => push_many(&mut b, *n, x),
            Step::All(x) => b.push_all(x),
            Step::Resolve => {
                b.resolve();
                0
            }
            Step::ResolveZero => b.resolve_zero(),
            Step::Hint(n) => {
                b.anticipate(*n);
                0
            }
            Step::Io(x) => b.write(x).unwrap(),
            Step::Flush => {
                b.flush().unwrap();
                0
            }
            Step::Value(..) => 0,
        });
        match &s {
            Step::One(x) => m.push(&[*x]),
            Step::Many(_, x) | Step::All(x) | Step::Io(x) => m.push(x),
            Step::Resolve | Step::ResolveZero | Step::Flush => m.split(),
            _ => {}
        }
        if let Err(p) = out {
            c.violation("memo:panic", format!("{log}: {}", p.0));
            return None;
        }
        c.count("builder operations", 1);
    }
    Some((b, m, log))
}

fn c16_memo(c: &mut Ctx, r: &mut Rng) {
    let Some((b, m, log)) = memo_history(c, r) else { return };
    c.seen(m.display().as_bytes());
    c.sample(|| format!("{log} => {}", m.display()));
    check_memo(c, &b, &m, &log);
    // joining with, and comparing to, a second history
    let Some((b2, m2, log2)) = memo_history(c, r) else { return };
    let eq = c.guard(|| (b == b2, b2 == b, b.cmp(&b2), b2.cmp(&b), hash_of(&b) == hash_of(&b2), b.partial_cmp(&b2)));
    match eq {
        Ok((e1, e2, c1, c2, h, pc)) => {
            if m == m2 && !(e1 && e2 && h) {
                c.violation("memo:eq", format!("equal builders compare {e1} {e2} {h}: {log} / {log2}"));
            }
            if m.all() != m2.all() && (e1 || e2) {
                c.violation("memo:eq", format!("different builders compare equal: {} {}", m.display(), m2.display()));
            }
            if c1 != c2.reverse() || (c1 == std::cmp::Ordering::Equal) != e1 || pc != Some(c1) {
                c.violation("memo:ord", format!("{c1:?} {c2:?} {pc:?} eq={e1}: {} {}", m.display(), m2.display()));
            }
        }
        Err(p) => c.violation("memo:cmp-panic", p.0),
    }
    // the same content cut elsewhere, into as many segments
    let all = m.all();
    let whole = m.content();
    if all.len() > 1 && !whole.is_empty() {
        let mut cuts: Vec<usize> = (1..all.len()).map(|_| r.below(whole.len() + 1)).collect();
        cuts.sort_unstable();
        cuts.push(whole.len());
        let mut m3 = Segs::default();
        let mut b3 = MemoBuilder::new();
        let mut from = 0;
        let fine = c.guard(|| {
            for (i, to) in cuts.iter().enumerate() {
                b3.push_all(&whole[from..*to]);
                m3.push(&whole[from..*to]);
                from = *to;
                if i + 1 < cuts.len() || m.active.is_none() {
                    b3.resolve();
                    m3.split();
                }
            }
            (b3 == b, b == b3, b.cmp(&b3), hash_of(&b) == hash_of(&b3))
        });
        match fine {
            Ok((e1, e2, o, h)) => {
                c.count("re-cut builders compared", 1);
                let same = m3 == m;
                if e1 != e2 || e1 != (o == std::cmp::Ordering::Equal) || (e1 && !h) || (same && !e1) || (m3.all() != all && e1) {
                    c.violation("memo:eq-cut", format!("{} and {}: {e1} {e2} {o:?} {h}", m.display(), m3.display()));
                }
            }
            Err(p) => c.violation("memo:eq-cut-panic", p.0),
        }
    }
    // same content, freshly rebuilt: same rendering as hex and text whatever the boundaries
    let flat = MemoBuilder::from(m.content());
    let out = c.guard(|| (b.clone().into_hex() == flat.clone().into_hex(), b.clone().into_bin().ok() == flat.clone().into_bin().ok(), b.clone() == b));
    c.check(out.is_ok_and(|x| x == (true, true, true)), || "memo:render-content".into(), || log.clone());
}

fn check_memo(c: &mut Ctx, b: &MemoBuilder, m: &Segs, log: &str) {
    let content = m.content();
    let out = c.guard(|| {
        let fin = b.clone().finalize();
        let f2 = fin.clone();
        (
            b.len(),
            b.is_empty(),
            b.to_string(),
            fin.to_string(),
            format!("{b:?}"),
            format!("{fin:?}"),
            Vec::<u8>::from(fin),
            b.clone().into_vec(),
            b.clone().into_hex(),
            f2 == b.clone().finalize(),
        )
    });
    match out {
        Ok((len, empty, disp, fdisp, dbg, fdbg, fin, vec, hx, same)) => {
            let mut bad = vec![];
            if len != content.len() {
                bad.push(format!("len {len}"));
            }
            if empty != content.is_empty() {
                bad.push(format!("is_empty {empty}"));
            }
            if disp != m.display() {
                bad.push(format!("display {disp}"));
            }
            if fdisp != m.display() {
                bad.push(format!("finalized-display {fdisp}"));
            }
            if !subsequence(&content, &ints_in(&dbg)) {
                bad.push(format!("debug {dbg}"));
            }
            if !subsequence(&content, &ints_in(&fdbg)) {
                bad.push(format!("finalized-debug {fdbg}"));
            }
            if fin != content {
                bad.push(format!("finalized-bytes {}", hex(&fin)));
            }
            if vec != content {
                bad.push(format!("bytes {}", hex(&vec)));
            }
            if hx != hex(&content) {
                bad.push(format!("hex {hx}"));
            }
            if !same {
                bad.push("finalize-not-equal".into());
            }
            for x in bad {
                c.violation(format!("memo:{}", x.split(' ').next().unwrap()), format!("{log}: {x}, segments {}", m.display()));
            }
        }
        Err(p) => c.violation("memo:read-panic", format!("{log}: {}", p.0)),
    }
}

/// a value's encoding into a memo builder is split exactly where it marks
fn c16_value(c: &mut Ctx, k: &TyOps, rec: &dyn Fn(&mut Ctx, &model::Value) -> Option<Segs>, r: &mut Rng) {
    let size = r.range(0, 12);
    let v = model::gen(&k.schema, r, size);
    let Some(m) = rec(c, &v) else { return };
    let Ok(x) = c.guard(|| (k.make)(&v)) else { return };
    let mut t = AnyT::make(3);
    if c.guard(|| x.write(&mut t)).is_err() {
        return c.violation(format!("{}:write-panic", k.name), format!("{v:?}"));
    }
    let AnyT::M(b) = &t else { unreachable!() };
    c.seen(format!("{}{}", k.name, m.display()).as_bytes());
    c.count("encodings split", 1);
    c.count("segments", m.all().len() as u64);
    check_memo(c, b, &m, &format!("{} {:?}", k.name, v));
    let mut w = vec![];
    model::encode(&k.schema, &v, &mut w).unwrap();
    c.check(m.content() == w, || format!("{}:recorded-content", k.name), || format!("{v:?}: {}", m.display()));
}

macro_rules! win {
    ($l:expr) => {
        match $l {
            LeftoverState::Windowed(s) => s,
            _ => panic!("harness: not windowed"),
        }
    };
}

/// everything a segmented buffer shows, against the list of segments
fn check_split(c: &mut Ctx, w: &LeftoverState, m: &Segs, log: &str, modes: u64) -> bool {
    let out = c.guard(|| {
        let s = win!(w);
        let fwd: Vec<Vec<u8>> = s.spans().map(|x| x.to_vec()).collect();
        let mut back: Vec<Vec<u8>> = s.spans().rev().map(|x| x.to_vec()).collect();
        back.reverse();
        // both ends in some order
        let mut it = s.spans();
        let (mut front, mut tail) = (vec![], vec![]);
        for i in 0..fwd.len() {
            if modes >> (i % 64) & 1 == 0 {
                front.push(it.next().expect("span").to_vec())
            } else {
                tail.push(it.next_back().expect("span").to_vec())
            }
        }
        let ended = it.next().is_none() && it.next_back().is_none();
        // the ways past some of them
        let k = modes as usize % (fwd.len() + 2);
        let at = |i: usize| fwd.get(i).map(|x| &x[..]);
        let from_back = |i: usize| fwd.len().checked_sub(i + 1).and_then(at);
        let (lo, hi) = s.spans().size_hint();
        let mut rest = s.spans();
        rest.nth(k);
        let ended = ended
            && s.spans().nth(k) == at(k)
            && s.spans().nth_back(k) == from_back(k)
            && s.spans().last() == from_back(0)
            && s.spans().count() == fwd.len()
            && rest.map(|x| x.len()).eq(fwd.iter().skip(k + 1).map(|x| x.len()))
            && s.spans().skip(k).step_by(2).eq(fwd.iter().skip(k).step_by(2).map(|x| &x[..]))
            && s.spans().fold(0, |n, x| n + x.len()) == s.len()
            && lo <= fwd.len()
            && hi.map_or(true, |h| h >= fwd.len());
        tail.reverse();
        front.extend(tail);
        let (buf, lens) = s.clone().into_parts();
        let inner = s.clone().into_inner();
        let av: &Vec<u8> = s.as_ref();
        let into: Vec<u8> = s.clone().into();
        (
            (fwd, back, front, ended),
            (buf, lens, inner, av.clone(), into),
            (s.len(), s.is_empty(), s.is_contiguous(), s.is_balanced()),
            (s.to_string(), format!("{s:?}")),
        )
    });
    match out {
        Ok(((fwd, back, mixed, ended), (buf, lens, inner, av, into), (len, empty, contiguous, balanced), (disp, dbg))) => {
            let want = m.all();
            let content = m.content();
            let mut bad: Vec<String> = vec![];
            if fwd != want {
                bad.push(format!("spans {fwd:?}"));
            }
            if back != want {
                bad.push(format!("spans-back {back:?}"));
            }
            if mixed != want || !ended {
                bad.push(format!("spans-mixed {mixed:?}"));
            }
            if lens != want.iter().map(|x| x.len()).collect::<Vec<_>>() {
                bad.push(format!("into_parts-lens {lens:?}"));
            }
            for (n, x) in [("into_parts", &buf), ("into_inner", &inner), ("as_ref", &av), ("into", &into)] {
                if *x != content {
                    bad.push(format!("{n} {x:?}"));
                }
            }
            if len != content.len() {
                bad.push(format!("len {len}"));
            }
            if empty != want.is_empty() {
                bad.push(format!("is_empty {empty}"));
            }
            if contiguous != (want.len() <= 1) {
                bad.push(format!("is_contiguous {contiguous}"));
            }
            if !balanced {
                bad.push("is_balanced false".into());
            }
            if disp != m.display() {
                bad.push(format!("display {disp}"));
            }
            if !subsequence(&content, &ints_in(&dbg)) {
                bad.push(format!("debug {dbg}"));
            }
            c.seen(disp.as_bytes());
            let ok = bad.is_empty();
            for x in bad {
                c.violation(format!("split:{}", x.split(' ').next().unwrap()), format!("{log}: {x}; segments {}", m.display()));
            }
            ok
        }
        Err(p) => {
            c.violation("split:read-panic", format!("{log}: {}", p.0));
            false
        }
    }
}

fn split_start(r: &mut Rng, log: &mut String) -> (LeftoverState, Segs) {
    let nsegs = r.below(4);
    let mut m = Segs::default();
    let init: Vec<Vec<u8>> = (0..nsegs)
        .map(|_| {
            let n = r.size(4);
            r.spicy_bytes(n)
        })
        .collect();
    let flat = r.chance(1, 3);
    log.push_str(&format!("init {init:?}{}", if flat { " flat" } else { "" }));
    let w = if !flat {
        m.closed = init.clone();
        LeftoverState::Windowed(hinted(r, init.iter().cloned()).collect())
    } else {
        let flat = init.concat();
        m.active = Some(flat.clone());
        LeftoverState::Windowed(flat.into())
    };
    (w, m)
}

/// one or two segmented buffers living through a history of operations
fn c16_split(c: &mut Ctx, r: &mut Rng) {
    let mut log = String::new();
    let (mut w, mut m) = split_start(r, &mut log);
    log.push_str("; other ");
    let (mut w2, mut m2) = split_start(r, &mut log);
    const OPS: [&str; 14] = ["push", "extend", "slice", "append", "split", "force", "cleave", "concat", "Extend", "clone", "split", "slice", "swap", "compare"];
    let big = r.chance(1, 300);
    let many = !big && r.chance(1, 500);
    let n = if big {
        r.range(1, 6)
    } else if many {
        r.range(240, 1100)
    } else {
        r.range(0, 16)
    };
    c.count("histories of huge chunks", big as u64);
    c.count("histories of hundreds of operations", many as u64);
    for i in 0..n {
        let k = if big && r.chance(1, 2) { r.large().min(140_000) } else { r.size(4) };
        let b = r.spicy_bytes(k);
        let op = r.below(14);
        log.push_str(&format!(" {}({})", OPS[op], hex(&b)));
        let mut donor = b.clone();
        let mut donor_segs: Vec<Vec<u8>> = vec![];
        if op == 8 {
            for _ in 0..r.below(4) {
                let k = r.size(3);
                donor_segs.push(r.spicy_bytes(k));
            }
            log.push_str(&format!("{donor_segs:?}"));
        }
        let (same, ord_eq) = (m == m2, m.all() == m2.all());
        let out = c.guard(|| {
            let mut note = true;
            if op == 12 {
                std::mem::swap(&mut w, &mut w2);
                return note;
            }
            let s = win!(&mut w);
            match op {
                0 => {
                    if let Some(x) = b.first() {
                        s.push_current(*x)
                    }
                }
                1 => s.extend_current(hinted(r, b.iter().copied())),
                2 | 11 => s.extend_current_from_slice(&b),
                3 => {
                    s.append_current(&mut donor);
                    note = donor.is_empty();
                }
                4 | 10 => s.split(),
                5 => s.split_force(),
                6 => s.cleave(),
                7 => s.concat(win!(&mut w2)),
                8 => s.extend(hinted(r, donor_segs.iter().cloned())),
                9 => {
                    let t = s.clone();
                    note = t == *s && hash_of(&t) == hash_of(s) && t.cmp(s) == std::cmp::Ordering::Equal;
                    *s = t;
                }
                13 => {
                    let o = win!(&w2);
                    let (e1, e2, c1, c2, h) = (*s == *o, *o == *s, (*s).cmp(o), (*o).cmp(s), hash_of(s) == hash_of(o));
                    note = (!same || (e1 && h)) && (ord_eq || !e1) && e1 == e2 && c1 == c2.reverse() && (c1 == std::cmp::Ordering::Equal) == e1 && (*s).partial_cmp(o) == Some(c1);
                }
                _ => unreachable!(),
            }
            note
        });
        match op {
            0 => {
                if let Some(x) = b.first() {
                    m.push(&[*x])
                }
            }
            1 | 2 | 3 | 11 => m.push(&b),
            4 | 10 => m.split(),
            5 => m.split_force(),
            6 => {
                m.split();
                m.split_force();
            }
            7 => {
                let d = std::mem::take(&mut m2);
                m.split();
                m.closed.extend(d.closed);
                m.active = d.active;
            }
            8 => {
                m.split();
                m.closed.extend(donor_segs);
            }
            12 => std::mem::swap(&mut m, &mut m2),
            _ => {}
        }
        c.count("segment operations", 1);
        match out {
            Ok(true) => {}
            Ok(false) => return c.violation(format!("split:{}:side", OPS[op]), format!("{log}: donor not drained, or clone or comparison wrong; {} and {}", m.display(), m2.display())),
            Err(p) => return c.violation("split:op-panic", format!("{log}: {}", p.0)),
        }
        let modes = r.u64();
        if many && i + 1 != n && !r.chance(1, 80) {
            continue;
        }
        if !check_split(c, &w, &m, &log, modes) {
            return;
        }
        if op == 7 && !check_split(c, &w2, &m2, &format!("{log}, the donor"), modes) {
            return;
        }
    }
    c.sample(|| format!("{log} => {}", m.display()));
}

type Rec = Box<dyn Fn(&mut Ctx, &model::Value) -> Option<Segs>>;

fn recorders() -> Vec<Rec> {
    use mon::ty::Ty;
    let mut v: Vec<Rec> = vec![];
    macro_rules! visit {
        ($t:ty) => {
            v.push(Box::new(|c: &mut Ctx, v: &model::Value| {
                let mut t = Recorder(Segs::default());
                match c.guard(|| {
                    let x = <$t as Ty>::from_value(v);
                    x.write_to(&mut t)
                }) {
                    Ok(_) => Some(t.0),
                    Err(_) => None,
                }
            }));
        };
    }
    mon::for_universe!(visit);
    v
}

fn main() {
    let mut c = Ctx::from_args("C08");
    let prop = c.prop.clone();
    let types = universe();
    match prop.as_str() {
        "C08" => {
            let n = c.n(250, 6000);
            for (i, k) in types.iter().enumerate() {
                let st = k.name.clone();
                c.cases(&st, n, |c, r| c08(c, &types, i, r));
            }
            let n = c.n(60, 2000);
            for k in &types {
                let st = format!("ways/{}", k.name);
                c.cases(&st, n, |c, r| c08_ways(c, k, r));
                c.cases(&format!("onto/{}", k.name), HELD.len() as u64, |c, r| {
                    let n = HELD[c.case_index() as usize % HELD.len()];
                    c.count("values appended to targets already holding much", 1);
                    c08_onto(c, k, r, n)
                });
            }
            let n = c.n(3000, 50_000);
            c.cases("make", n, c08_make);
            c.cases("macros", n / 3, c08_macros);
        }
        "C16" => {
            let n = c.n(20_000, 600_000);
            c.cases("memo", n, c16_memo);
            c.cases("split", n, c16_split);
            let recs = recorders();
            let n = c.n(120, 3000);
            for (k, rec) in types.iter().zip(&recs) {
                let st = format!("value/{}", k.name);
                c.cases(&st, n, |c, r| c16_value(c, k, rec, r));
            }
        }
        p => panic!("targets does not decide {p}"),
    }
    c.count("types", types.len() as u64);
    c.finish()
}
