//! Executable specification of the wire format: an independent description of
//! types (`Schema`), of values (`Value`), a reference encoder and a reference
//! decoder.  Nothing in this file uses the library under test.

use crate::prng::Rng;
use num_bigint::{BigInt, BigUint, Sign};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pref {
    P8,
    P16,
    P30,
}

impl Pref {
    pub fn width(self) -> usize {
        match self {
            Pref::P8 => 1,
            Pref::P16 => 2,
            Pref::P30 => 4,
        }
    }
    pub fn max(self) -> usize {
        match self {
            Pref::P8 => 0xff,
            Pref::P16 => 0xffff,
            Pref::P30 => 0x3fff_ffff,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Schema {
    Unit,
    Bool,
    /// width in bytes, signedness
    Int(usize, bool),
    F64,
    /// ranged integer over a machine integer of (width, signed)
    RInt(usize, bool, i128, i128),
    RF64(f64, f64),
    N,
    Z,
    /// text to the end of the window
    Str,
    /// bytes to the end of the window
    Blob,
    FBytes(usize),
    FStr(usize),
    Opt(Box<Schema>),
    Nullable(Box<Schema>),
    Padded(Box<Schema>, usize),
    Dyn(Pref, Box<Schema>),
    VPad(Box<Schema>, usize),
    Seq(Box<Schema>),
    FixSeq(Box<Schema>, usize),
    LimSeq(Box<Schema>, usize),
    Struct(Vec<Schema>),
    /// tag width, (tag, payload)
    Enum(usize, Vec<(u64, Schema)>),
    /// recursion knot
    Lazy(fn() -> Schema),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Value {
    Unit,
    Bool(bool),
    Int(i128),
    F64(u64),
    Big(BigInt),
    Bytes(Vec<u8>),
    Opt(Option<Box<Value>>),
    List(Vec<Value>),
    Struct(Vec<Value>),
    Enum(u64, Box<Value>),
}

/// Why the reference decoder rejected an input
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Rej {
    /// wanted `want` bytes with `have` left in the window
    Short { want: usize, have: usize },
    /// window of `want` bytes cannot be opened with `have` left
    Window { want: usize, have: usize },
    /// `residual` bytes unread in a delimited payload
    Residue { residual: usize },
    Bool(u8),
    Tag { width: usize, tag: u64, valid: Vec<u64> },
    /// the bounds and the number; `raw` is the stored offset when MIN > 0
    IntRange { min: i128, max: i128, raw: i128, val: i128 },
    FloatRange { min: u64, max: u64, val: u64 },
    Unterminated(Vec<u8>),
    Count { limit: usize, actual: usize, exact: bool },
    Padding(Vec<u8>),
    /// the reference gave up (non-productive repetition)
    NoProgress,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct RefCfg {
    pub check_padding: bool,
}

fn be(x: i128, w: usize, out: &mut Vec<u8>) {
    for k in (0..w).rev() {
        out.push((x >> (8 * k)) as u8);
    }
}

/// 7-bit little-endian groups, shortest form, continuation bit on all but the last
pub fn nat_groups(x: &BigUint) -> Vec<u8> {
    let bits = x.bits();
    let le = x.to_bytes_le();
    let ngroups = if bits == 0 { 1 } else { ((bits + 6) / 7) as usize };
    let bit = |i: usize| -> u8 {
        let b = i / 8;
        if b < le.len() {
            (le[b] >> (i % 8)) & 1
        } else {
            0
        }
    };
    let mut out = Vec::new();
    for g in 0..ngroups {
        let mut v = 0u8;
        for k in 0..7 {
            v |= bit(g * 7 + k) << k;
        }
        if g + 1 < ngroups {
            v |= 0x80;
        }
        out.push(v);
    }
    out
}

pub fn int_groups(x: &BigInt) -> Vec<u8> {
    let mag = x.magnitude();
    let neg = x.sign() == Sign::Minus;
    let bits = mag.bits() as usize;
    let le = mag.to_bytes_le();
    let bit = |i: usize| -> u8 {
        let b = i / 8;
        if b < le.len() {
            (le[b] >> (i % 8)) & 1
        } else {
            0
        }
    };
    let extra = if bits <= 6 { 0 } else { (bits - 6 + 6) / 7 };
    let mut first = 0u8;
    for k in 0..6 {
        first |= bit(k) << k;
    }
    if neg {
        first |= 0x40;
    }
    if extra > 0 {
        first |= 0x80;
    }
    let mut out = vec![first];
    for g in 0..extra {
        let mut v = 0u8;
        for k in 0..7 {
            v |= bit(6 + g * 7 + k) << k;
        }
        if g + 1 < extra {
            v |= 0x80;
        }
        out.push(v);
    }
    out
}

pub fn nat_of_groups(groups: &[u8]) -> BigInt {
    let mut acc = BigInt::from(0);
    for b in groups.iter().rev() {
        acc = acc * 128 + BigInt::from(b & 0x7f);
    }
    acc
}

pub fn int_of_groups(groups: &[u8]) -> BigInt {
    let hi = nat_of_groups(&groups[1..]);
    let mag: BigInt = hi * 64 + BigInt::from(groups[0] & 0x3f);
    if groups[0] & 0x40 != 0 {
        -mag
    } else {
        mag
    }
}

/// Reference encoder. `Err` only when a length prefix cannot represent the payload.
pub fn encode(s: &Schema, v: &Value, out: &mut Vec<u8>) -> Result<(), ()> {
    match (s, v) {
        (Schema::Lazy(f), v) => encode(&f(), v, out)?,
        (Schema::Unit, Value::Unit) => {}
        (Schema::Bool, Value::Bool(b)) => out.push(if *b { 0xff } else { 0x00 }),
        (Schema::Int(w, _), Value::Int(x)) => be(*x, *w, out),
        (Schema::F64, Value::F64(x)) => be(*x as i128, 8, out),
        (Schema::RF64(..), Value::F64(x)) => be(*x as i128, 8, out),
        (Schema::RInt(w, _, min, _), Value::Int(x)) => be(if *min > 0 { x - min } else { *x }, *w, out),
        (Schema::N, Value::Big(x)) => out.extend(nat_groups(x.magnitude())),
        (Schema::Z, Value::Big(x)) => out.extend(int_groups(x)),
        (Schema::Str, Value::Bytes(b)) | (Schema::Blob, Value::Bytes(b)) => out.extend(b),
        (Schema::FBytes(n), Value::Bytes(b)) | (Schema::FStr(n), Value::Bytes(b)) => {
            assert_eq!(*n, b.len());
            out.extend(b)
        }
        (Schema::Opt(_), Value::Opt(None)) => out.push(0),
        (Schema::Opt(t), Value::Opt(Some(x))) => {
            out.push(0xff);
            encode(t, x, out)?
        }
        (Schema::Nullable(_), Value::Opt(None)) => {}
        (Schema::Nullable(t), Value::Opt(Some(x))) => encode(t, x, out)?,
        (Schema::Padded(t, n), x) => {
            encode(t, x, out)?;
            out.extend(std::iter::repeat(0).take(*n))
        }
        (Schema::Dyn(p, t), x) => {
            let mut tmp = Vec::new();
            encode(t, x, &mut tmp)?;
            if tmp.len() > p.max() {
                return Err(());
            }
            be(tmp.len() as i128, p.width(), out);
            out.extend(tmp)
        }
        (Schema::VPad(t, _), x) => encode(t, x, out)?,
        (Schema::Seq(t), Value::List(xs)) | (Schema::FixSeq(t, _), Value::List(xs)) | (Schema::LimSeq(t, _), Value::List(xs)) => {
            for x in xs {
                encode(t, x, out)?
            }
        }
        (Schema::Struct(fs), Value::Struct(xs)) => {
            assert_eq!(fs.len(), xs.len());
            for (f, x) in fs.iter().zip(xs) {
                encode(f, x, out)?
            }
        }
        (Schema::Enum(w, vs), Value::Enum(tag, x)) => {
            let (_, p) = vs.iter().find(|(t, _)| t == tag).expect("tag of schema");
            be(*tag as i128, *w, out);
            encode(p, x, out)?
        }
        (s, v) => panic!("model: schema/value mismatch {:?} {:?}", s, v),
    }
    Ok(())
}

pub struct Cursor<'a> {
    pub buf: &'a [u8],
    pub pos: usize,
    pub end: usize,
    /// exact extent of every delimited payload, in the order the windows open
    pub windows: Vec<(usize, usize)>,
    pub cfg: RefCfg,
    /// primitive reads performed (a logical cost measure)
    pub steps: u64,
}

impl<'a> Cursor<'a> {
    pub fn new(buf: &'a [u8]) -> Self {
        Cursor { buf, pos: 0, end: buf.len(), windows: vec![], cfg: RefCfg::default(), steps: 0 }
    }
    pub fn rem(&self) -> usize {
        self.end - self.pos
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], Rej> {
        self.steps += 1;
        if n <= self.rem() {
            let r = &self.buf[self.pos..self.pos + n];
            self.pos += n;
            Ok(r)
        } else {
            Err(Rej::Short { want: n, have: self.rem() })
        }
    }
    fn uint(&mut self, w: usize) -> Result<i128, Rej> {
        let mut r = 0i128;
        for b in self.take(w)? {
            r = (r << 8) | *b as i128;
        }
        Ok(r)
    }
    fn int(&mut self, w: usize, signed: bool) -> Result<i128, Rej> {
        let r = self.uint(w)?;
        if signed && r >= 1i128 << (8 * w - 1) {
            Ok(r - (1i128 << (8 * w)))
        } else {
            Ok(r)
        }
    }
    fn groups(&mut self) -> Result<Vec<u8>, Rej> {
        let mut out = vec![];
        loop {
            match self.take(1) {
                Ok(b) => {
                    out.push(b[0]);
                    if b[0] & 0x80 == 0 {
                        return Ok(out);
                    }
                }
                Err(_) => return Err(Rej::Unterminated(out)),
            }
        }
    }
}

/// Reference decoder.
pub fn decode(s: &Schema, c: &mut Cursor) -> Result<Value, Rej> {
    match s {
        Schema::Lazy(f) => decode(&f(), c),
        Schema::Unit => Ok(Value::Unit),
        Schema::Bool => match c.take(1)?[0] {
            0xff => Ok(Value::Bool(true)),
            0x00 => Ok(Value::Bool(false)),
            b => Err(Rej::Bool(b)),
        },
        Schema::Int(w, sg) => Ok(Value::Int(c.int(*w, *sg)?)),
        Schema::F64 => Ok(Value::F64(c.uint(8)? as u64)),
        Schema::RF64(lo, hi) => {
            let bits = c.uint(8)? as u64;
            let x = f64::from_bits(bits);
            if x >= *lo && x <= *hi {
                Ok(Value::F64(bits))
            } else {
                Err(Rej::FloatRange { min: lo.to_bits(), max: hi.to_bits(), val: bits })
            }
        }
        Schema::RInt(w, sg, min, max) => {
            let raw = c.int(*w, *sg)?;
            let x = if *min > 0 {
                if raw < 0 {
                    return Err(Rej::IntRange { min: *min, max: *max, raw, val: raw + min });
                }
                raw + min
            } else {
                raw
            };
            if x < *min || x > *max {
                Err(Rej::IntRange { min: *min, max: *max, raw, val: x })
            } else {
                Ok(Value::Int(x))
            }
        }
        Schema::N => Ok(Value::Big(nat_of_groups(&c.groups()?))),
        Schema::Z => Ok(Value::Big(int_of_groups(&c.groups()?))),
        Schema::Str => {
            let b = c.take(c.rem())?;
            Ok(Value::Bytes(String::from_utf8_lossy(b).into_owned().into_bytes()))
        }
        Schema::Blob => Ok(Value::Bytes(c.take(c.rem())?.to_vec())),
        Schema::FBytes(n) | Schema::FStr(n) => Ok(Value::Bytes(c.take(*n)?.to_vec())),
        Schema::Opt(t) => match c.take(1)?[0] {
            0xff => Ok(Value::Opt(Some(Box::new(decode(t, c)?)))),
            0x00 => Ok(Value::Opt(None)),
            b => Err(Rej::Tag { width: 1, tag: b as u64, valid: vec![0, 0xff] }),
        },
        Schema::Nullable(t) => {
            if c.rem() == 0 {
                Ok(Value::Opt(None))
            } else {
                Ok(Value::Opt(Some(Box::new(decode(t, c)?))))
            }
        }
        Schema::Padded(t, n) => {
            let v = decode(t, c)?;
            let pad = c.take(*n)?;
            if c.cfg.check_padding && pad.iter().any(|b| *b != 0) {
                return Err(Rej::Padding(pad.to_vec()));
            }
            Ok(v)
        }
        Schema::Dyn(p, t) => {
            let len = c.uint(p.width())? as usize;
            if len > p.max() {
                return Err(Rej::IntRange { min: 0, max: p.max() as i128, raw: len as i128, val: len as i128 });
            }
            window(c, len, t)
        }
        Schema::VPad(t, n) => {
            if c.rem() < *n {
                return Err(Rej::Short { want: *n, have: c.rem() });
            }
            let len = c.rem() - n;
            window(c, len, t)
        }
        Schema::Seq(t) => {
            let mut xs = vec![];
            while c.rem() > 0 {
                let before = c.pos;
                xs.push(decode(t, c)?);
                if c.pos == before {
                    return Err(Rej::NoProgress);
                }
            }
            Ok(Value::List(xs))
        }
        Schema::LimSeq(t, n) => {
            let mut xs = vec![];
            while c.rem() > 0 {
                let before = c.pos;
                xs.push(decode(t, c)?);
                if xs.len() > *n {
                    return Err(Rej::Count { limit: *n, actual: *n + 1, exact: false });
                }
                if c.pos == before {
                    return Err(Rej::NoProgress);
                }
            }
            Ok(Value::List(xs))
        }
        Schema::FixSeq(t, n) => {
            let mut xs = vec![];
            while xs.len() < *n {
                if c.rem() == 0 {
                    return Err(Rej::Count { limit: *n, actual: xs.len(), exact: true });
                }
                xs.push(decode(t, c)?);
            }
            Ok(Value::List(xs))
        }
        Schema::Struct(fs) => {
            let mut xs = vec![];
            for f in fs {
                xs.push(decode(f, c)?);
            }
            Ok(Value::Struct(xs))
        }
        Schema::Enum(w, vs) => {
            let tag = c.uint(*w)? as u64;
            match vs.iter().find(|(t, _)| *t == tag) {
                Some((_, p)) => Ok(Value::Enum(tag, Box::new(decode(p, c)?))),
                None => Err(Rej::Tag { width: *w, tag, valid: vs.iter().map(|x| x.0).collect() }),
            }
        }
    }
}

fn window(c: &mut Cursor, len: usize, t: &Schema) -> Result<Value, Rej> {
    if len > c.rem() {
        return Err(Rej::Window { want: len, have: c.rem() });
    }
    let outer = c.end;
    c.end = c.pos + len;
    c.windows.push((c.pos, c.end));
    let v = decode(t, c)?;
    if c.pos != c.end {
        return Err(Rej::Residue { residual: c.end - c.pos });
    }
    c.end = outer;
    Ok(v)
}

/// Smallest possible encoding
pub fn min_len(s: &Schema) -> usize {
    min_len_d(s, 6)
}

fn min_len_d(s: &Schema, d: usize) -> usize {
    match s {
        Schema::Lazy(f) => {
            if d == 0 {
                0
            } else {
                min_len_d(&f(), d - 1)
            }
        }
        Schema::Unit | Schema::Str | Schema::Blob | Schema::Nullable(_) | Schema::Seq(_) | Schema::LimSeq(..) => 0,
        Schema::Bool | Schema::N | Schema::Z => 1,
        Schema::Int(w, _) | Schema::RInt(w, ..) => *w,
        Schema::F64 | Schema::RF64(..) => 8,
        Schema::FBytes(n) | Schema::FStr(n) => *n,
        Schema::Opt(_) => 1,
        Schema::Padded(t, n) => min_len_d(t, d) + n,
        Schema::Dyn(p, t) => p.width() + min_len_d(t, d),
        Schema::VPad(t, _) => min_len_d(t, d),
        Schema::FixSeq(t, n) => min_len_d(t, d) * n,
        Schema::Struct(fs) => fs.iter().map(|f| min_len_d(f, d)).sum(),
        Schema::Enum(w, vs) => w + vs.iter().map(|(_, f)| min_len_d(f, d)).min().unwrap_or(0),
    }
}

/// Does decoding depend on where the enclosing window ends?
pub fn greedy(s: &Schema) -> bool {
    greedy_d(s, 6)
}

fn greedy_d(s: &Schema, d: usize) -> bool {
    match s {
        Schema::Lazy(f) => d > 0 && greedy_d(&f(), d - 1),
        Schema::Str | Schema::Blob | Schema::Nullable(_) | Schema::Seq(_) | Schema::LimSeq(..) | Schema::VPad(..) => true,
        Schema::Opt(t) | Schema::Padded(t, _) | Schema::FixSeq(t, _) => greedy_d(t, d),
        Schema::Struct(fs) => fs.last().map_or(false, |f| greedy_d(f, d)) || fs.iter().any(|f| greedy_d(f, d)),
        Schema::Enum(_, vs) => vs.iter().any(|(_, f)| greedy_d(f, d)),
        _ => false,
    }
}

/// Must every value of the type decode back from its own encoding when nothing follows?
/// (`tail`: number of bytes that follow inside the same window)
pub fn well_formed(s: &Schema) -> bool {
    wf(s, 0, 6)
}

fn wf(s: &Schema, tail: usize, d: usize) -> bool {
    match s {
        Schema::Lazy(f) => d == 0 || wf(&f(), tail, d - 1),
        Schema::Str | Schema::Blob => tail == 0,
        Schema::Nullable(t) => tail == 0 && min_len(t) > 0 && wf(t, 0, d),
        Schema::Seq(t) | Schema::LimSeq(t, _) => tail == 0 && min_len(t) > 0 && !greedy(t) && wf(t, 1, d),
        Schema::FixSeq(t, n) => *n == 0 || (min_len(t) > 0 && !greedy(t) && wf(t, 1, d)),
        Schema::VPad(t, n) => tail == *n && wf(t, 0, d),
        Schema::Opt(t) => wf(t, tail, d),
        Schema::Padded(t, n) => wf(t, tail + n, d),
        Schema::Dyn(_, t) => wf(t, 0, d),
        Schema::Struct(fs) => {
            for (i, f) in fs.iter().enumerate() {
                let rest = &fs[i + 1..];
                let rest_min: usize = rest.iter().map(min_len).sum();
                let rest_fixed = rest.iter().all(|f| fixed_len(f).is_some());
                let t = if rest.is_empty() { tail } else { rest_min + tail };
                // with a variable tail the only safe field is one that ignores the window end
                let t = if rest_fixed { t } else { usize::MAX / 4 };
                if !wf(f, t, d) {
                    return false;
                }
            }
            true
        }
        Schema::Enum(_, vs) => vs.iter().all(|(_, f)| wf(f, tail, d)),
        _ => true,
    }
}

/// Length shared by all encodings, when there is one
pub fn fixed_len(s: &Schema) -> Option<usize> {
    match s {
        Schema::Unit => Some(0),
        Schema::Bool => Some(1),
        Schema::Int(w, _) | Schema::RInt(w, ..) => Some(*w),
        Schema::F64 | Schema::RF64(..) => Some(8),
        Schema::FBytes(n) | Schema::FStr(n) => Some(*n),
        Schema::Opt(t) => (fixed_len(t) == Some(0)).then_some(1),
        Schema::Padded(t, n) => fixed_len(t).map(|m| m + n),
        Schema::Dyn(p, t) => fixed_len(t).map(|m| m + p.width()),
        Schema::VPad(t, _) => fixed_len(t),
        Schema::FixSeq(t, n) => fixed_len(t).map(|m| m * n),
        Schema::Struct(fs) => fs.iter().map(fixed_len).sum(),
        _ => None,
    }
}

// ---------------------------------------------------------------- generation

fn gen_int(r: &mut Rng, lo: i128, hi: i128) -> i128 {
    let x = match r.below(8) {
        0 => lo,
        1 => hi,
        2 => lo + 1,
        3 => hi - 1,
        4 => 0,
        5 => {
            let k = r.below(66);
            let b = 1i128 << k;
            let b = b + r.range(0, 2) as i128 - 1;
            if r.chance(1, 2) {
                -b
            } else {
                b
            }
        }
        6 => r.irange(-3, 300),
        _ => r.irange(lo, hi),
    };
    if x < lo || x > hi {
        r.irange(lo, hi)
    } else {
        x
    }
}

pub fn gen_biguint(r: &mut Rng) -> BigUint {
    let bits = match r.below(8) {
        0 => r.below(3),
        1 => *r.pick(&[5usize, 6, 7, 8, 13, 14, 15, 20, 21, 22, 27, 28]),
        2 => 7 * r.range(1, 24) + r.below(2),
        3 => 6 + 7 * r.range(0, 24) + r.below(2),
        4 => r.below(40),
        5 => *r.pick(&[31usize, 32, 33, 63, 64, 65, 127, 128, 129]),
        6 => r.below(300),
        _ => {
            if r.chance(1, 12) {
                let top = if r.chance(1, 20) { 20_000 } else { 4000 };
                r.below(top)
            } else {
                r.below(90)
            }
        }
    };
    if bits == 0 {
        return BigUint::from(0u8);
    }
    match r.below(5) {
        0 => BigUint::from(1u8) << (bits - 1),
        1 => (BigUint::from(1u8) << bits) - 1u8,
        2 => {
            let mut x = BigUint::from(1u8) << (bits - 1);
            x += BigUint::from(r.below(3) as u32);
            x
        }
        _ => {
            let nb = (bits + 7) / 8;
            let mut b = r.bytes(nb);
            let top = (bits - 1) % 8;
            b[nb - 1] &= ((1u16 << (top + 1)) - 1) as u8;
            b[nb - 1] |= 1 << top;
            if r.chance(1, 3) && nb > 1 {
                // long zero run in the middle
                let i = r.below(nb - 1);
                for k in 0..=i {
                    b[k] = 0;
                }
            }
            BigUint::from_bytes_le(&b)
        }
    }
}

pub fn gen_bigint(r: &mut Rng) -> BigInt {
    let m = BigInt::from(gen_biguint(r));
    if r.chance(1, 2) {
        -m
    } else {
        m
    }
}

pub fn gen_text(r: &mut Rng, max: usize) -> String {
    let n = r.long(max);
    let mut s: Vec<char> = (0..n)
        .map(|_| match r.below(8) {
            0 => *r.pick(&['é', 'ß', '漢', '🦀', '\u{10ffff}', '\u{fffd}', '\u{feff}', '\0', '\u{301}', '\u{2028}']),
            1 => *r.pick(&['\n', '\r', '\t', '"', '\\', '\u{7f}', '\u{80}']),
            _ => (0x20 + r.below(0x5f) as u8) as char,
        })
        .collect();
    // character pairs which text handling likes to rewrite
    if n > 1 && r.chance(1, 5) {
        let (a, b) = *r.pick(&[('\r', '\n'), ('\n', '\r'), ('e', '\u{301}'), ('\\', 'n'), (' ', ' '), ('\0', '\0'), ('\n', '\n'), ('%', '2'), ('&', 'a'), ('\u{feff}', '\u{feff}')]);
        let at = *r.pick(&[0, n - 2, n / 2 - 1]);
        s[at] = a;
        s[at + 1] = b;
    }
    s.into_iter().collect()
}

pub fn gen_f64(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        4 => f64::from_bits(0x7ff0_0000_0000_0001 | r.u64() >> 12),
        5 => f64::MAX,
        6 => f64::from_bits(r.below(5) as u64),
        7 => r.irange(-1000, 1000) as f64 / 8.0,
        _ => f64::from_bits(r.u64()),
    }
}

pub struct GenCfg {
    pub size: usize,
    pub depth: usize,
}

pub fn gen(s: &Schema, r: &mut Rng, size: usize) -> Value {
    match s {
        Schema::Lazy(f) => gen(&f(), r, size),
        Schema::Unit => Value::Unit,
        Schema::Bool => Value::Bool(r.chance(1, 2)),
        Schema::Int(w, sg) => {
            let (lo, hi) = int_bounds(*w, *sg);
            Value::Int(gen_int(r, lo, hi))
        }
        Schema::RInt(_, _, lo, hi) => Value::Int(gen_int(r, *lo, *hi)),
        Schema::F64 => Value::F64(gen_f64(r).to_bits()),
        Schema::RF64(lo, hi) => {
            let x = match r.below(6) {
                0 => *lo,
                1 => *hi,
                2 => gen_f64(r),
                3 => 0.0,
                _ => {
                    let t = (r.u64() >> 11) as f64 / (1u64 << 53) as f64;
                    lo + (hi - lo) * t
                }
            };
            Value::F64(if x >= *lo && x <= *hi { x } else { *lo }.to_bits())
        }
        Schema::N => Value::Big(gen_biguint(r).into()),
        Schema::Z => Value::Big(gen_bigint(r)),
        Schema::Str => Value::Bytes(gen_text(r, size.min(64)).into_bytes()),
        Schema::Blob => {
            let n = r.long(size.min(300));
            Value::Bytes(r.spicy_bytes(n))
        }
        Schema::FBytes(n) => Value::Bytes(r.spicy_bytes(*n)),
        Schema::FStr(n) => Value::Bytes(if r.chance(1, 2) { r.bytes(*n) } else { (0..*n).map(|_| b'a' + r.below(26) as u8).collect() }),
        Schema::Opt(t) => {
            if size == 0 || r.chance(1, 3) {
                Value::Opt(None)
            } else {
                Value::Opt(Some(Box::new(gen(t, r, size.saturating_sub(1)))))
            }
        }
        Schema::Nullable(t) => {
            if size == 0 || r.chance(1, 3) {
                Value::Opt(None)
            } else {
                Value::Opt(Some(Box::new(gen(t, r, size - 1))))
            }
        }
        Schema::Padded(t, _) | Schema::VPad(t, _) => gen(t, r, size),
        Schema::Dyn(p, t) => {
            // payload must fit its prefix: shrink until it does
            let mut sz = size;
            loop {
                let v = gen(t, r, sz);
                let mut b = vec![];
                if encode(t, &v, &mut b).is_ok() && b.len() <= p.max() {
                    return v;
                }
                sz = sz / 2;
            }
        }
        Schema::Seq(t) => {
            let (n, inner) = if size >= 200 { (r.long(300).min(1100), size / 16) } else { (r.size(size.min(40)), size / 2) };
            Value::List((0..n).map(|_| gen(t, r, inner)).collect())
        }
        Schema::LimSeq(t, m) => {
            let n = match *m {
                m if m > 1000 && r.chance(1, 60) => m,
                m if m > 64 && m <= 1000 && r.chance(1, 10) => m - r.below(3),
                m if m > 64 && r.chance(1, 10) => r.range(0, m.min(400)),
                m if m <= 64 && r.chance(1, 4) => m,
                m => r.size(m.min(size)),
            };
            Value::List((0..n).map(|_| gen(t, r, size / 2)).collect())
        }
        Schema::FixSeq(t, n) => Value::List((0..*n).map(|_| gen(t, r, size / 2)).collect()),
        Schema::Struct(fs) => Value::Struct(fs.iter().map(|f| gen(f, r, size)).collect()),
        Schema::Enum(_, vs) => {
            let (t, p) = if size <= 1 {
                // prefer the smallest payload so that recursive types terminate
                vs.iter().min_by_key(|(_, p)| has_lazy(p)).unwrap()
            } else {
                r.pick(vs)
            };
            Value::Enum(*t, Box::new(gen(p, r, size.saturating_sub(1).min(size / 2 + 1))))
        }
    }
}

fn has_lazy(s: &Schema) -> bool {
    match s {
        Schema::Lazy(_) => true,
        Schema::Opt(t)
        | Schema::Nullable(t)
        | Schema::Padded(t, _)
        | Schema::VPad(t, _)
        | Schema::Dyn(_, t)
        | Schema::Seq(t)
        | Schema::LimSeq(t, _)
        | Schema::FixSeq(t, _) => has_lazy(t),
        Schema::Struct(fs) => fs.iter().any(has_lazy),
        Schema::Enum(_, vs) => vs.iter().any(|(_, f)| has_lazy(f)),
        _ => false,
    }
}

pub fn int_bounds(w: usize, signed: bool) -> (i128, i128) {
    if signed {
        (-(1i128 << (8 * w - 1)), (1i128 << (8 * w - 1)) - 1)
    } else {
        (0, (1i128 << (8 * w)) - 1)
    }
}

/// Encoder with injected faults: each node may, with probability `1/p`, emit
/// something the format forbids or that lies about its length.
pub fn encode_faulty(s: &Schema, v: &Value, r: &mut Rng, p: usize, out: &mut Vec<u8>) {
    let bad = r.below(p) == 0;
    match (s, v) {
        (Schema::Lazy(f), v) => encode_faulty(&f(), v, r, p, out),
        (Schema::Bool, Value::Bool(_)) if bad => out.push(*r.pick(&[1u8, 0x7f, 0x80, 0xfe])),
        (Schema::RInt(w, sg, lo, hi), _) if bad => {
            let (tlo, thi) = int_bounds(*w, *sg);
            let (lo, hi) = if *lo > 0 { (0, hi - lo) } else { (*lo, *hi) };
            let x = match r.below(5) {
                0 => lo - 1,
                1 => hi + 1,
                2 => tlo,
                3 => thi,
                _ => gen_int(r, tlo, thi),
            };
            be(x, *w, out)
        }
        (Schema::RF64(lo, hi), _) if bad => {
            let x = match r.below(4) {
                0 => f64::from_bits(lo.to_bits().wrapping_add(1)),
                1 => f64::from_bits(hi.to_bits().wrapping_add(1)),
                2 => *r.pick(&[f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
                _ => gen_f64(r),
            };
            be(x.to_bits() as i128, 8, out)
        }
        (Schema::N, Value::Big(_)) | (Schema::Z, Value::Big(_)) if bad => {
            let start = out.len();
            encode(s, v, out).unwrap();
            match r.below(4) {
                0 => *out.last_mut().unwrap() |= 0x80,
                1 => {
                    // non-canonical trailing zero groups
                    *out.last_mut().unwrap() |= 0x80;
                    for _ in 0..r.below(3) {
                        out.push(0x80);
                    }
                    out.push(0);
                }
                2 => {
                    let i = r.range(start, out.len() - 1);
                    out[i] ^= 0x80
                }
                _ => out[start] ^= 0x40,
            }
        }
        (Schema::Str, Value::Bytes(b)) if bad => {
            let mut b = b.clone();
            let n = r.size(8);
            b.extend(r.bytes(n));
            out.extend(b)
        }
        (Schema::Opt(t), Value::Opt(x)) => {
            out.push(if bad {
                *r.pick(&[1u8, 0x7f, 0x80, 0xfe])
            } else if x.is_some() {
                0xff
            } else {
                0
            });
            if let Some(x) = x {
                encode_faulty(t, x, r, p, out)
            }
        }
        (Schema::Nullable(t), Value::Opt(Some(x))) => encode_faulty(t, x, r, p, out),
        (Schema::Padded(t, n), x) => {
            encode_faulty(t, x, r, p, out);
            let n = if bad && r.chance(1, 2) { n.saturating_sub(1) } else { *n };
            for _ in 0..n {
                out.push(if bad { r.u8() } else { 0 })
            }
        }
        (Schema::Dyn(pf, t), x) => {
            let mut tmp = vec![];
            encode_faulty(t, x, r, p, &mut tmp);
            let mut l = tmp.len() as i128;
            if bad {
                l = match r.below(8) {
                    0 => l + 1,
                    1 => l - 1,
                    2 => 0,
                    3 => pf.max() as i128,
                    4 => pf.max() as i128 + 1,
                    5 => -1,
                    6 => l + r.below(300) as i128,
                    _ => r.u64() as i128,
                };
            }
            be(l, pf.width(), out);
            out.extend(tmp)
        }
        (Schema::VPad(t, _), x) => encode_faulty(t, x, r, p, out),
        (Schema::Seq(t), Value::List(xs)) => xs.iter().for_each(|x| encode_faulty(t, x, r, p, out)),
        (Schema::FixSeq(t, n), Value::List(xs)) => {
            for (i, x) in xs.iter().enumerate() {
                if bad && i + 1 == *n {
                    break;
                }
                encode_faulty(t, x, r, p, out)
            }
        }
        (Schema::LimSeq(t, n), Value::List(xs)) => {
            xs.iter().for_each(|x| encode_faulty(t, x, r, p, out));
            if bad && *n > 0 {
                for _ in xs.len()..(*n + r.below(3)) {
                    let x = gen(t, r, 2);
                    encode_faulty(t, &x, r, p, out)
                }
            }
        }
        (Schema::Struct(fs), Value::Struct(xs)) => fs.iter().zip(xs).for_each(|(f, x)| encode_faulty(f, x, r, p, out)),
        (Schema::Enum(w, vs), Value::Enum(tag, x)) => {
            let (_, pl) = vs.iter().find(|(t, _)| t == tag).unwrap();
            let t = if bad {
                match r.below(5) {
                    0 => tag.wrapping_add(1),
                    1 => tag.wrapping_sub(1),
                    2 => r.u64(),
                    3 => tag ^ (1 << r.below(8 * w)),
                    _ => r.pick(vs).0,
                }
            } else {
                *tag
            };
            be(t as i128, *w, out);
            encode_faulty(pl, x, r, p, out)
        }
        (s, v) => {
            if encode(s, v, out).is_err() {
                out.push(0)
            }
        }
    }
}

/// An input byte string for `s`: valid, nearly valid, or arbitrary.
/// Returns the bytes and a label of how they were made.
pub fn gen_input(s: &Schema, r: &mut Rng, size: usize) -> (Vec<u8>, &'static str) {
    let v = gen(s, r, size);
    let mut b = vec![];
    match r.below(12) {
        0 => {
            encode(s, &v, &mut b).ok();
            (b, "valid")
        }
        1 => {
            encode(s, &v, &mut b).ok();
            let n = r.range(1, 6);
            let t = r.spicy_bytes(n);
            b.extend(t);
            (b, "valid+trailing")
        }
        2 => {
            encode(s, &v, &mut b).ok();
            if !b.is_empty() {
                let k = r.below(b.len());
                b.truncate(k)
            }
            (b, "truncated")
        }
        3 => {
            encode(s, &v, &mut b).ok();
            if !b.is_empty() {
                let k = r.below(b.len());
                b[k] ^= 1 << r.below(8);
            }
            (b, "bitflip")
        }
        4 => {
            encode(s, &v, &mut b).ok();
            for _ in 0..r.range(1, 3) {
                if !b.is_empty() {
                    let k = r.below(b.len());
                    b[k] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0x3f, 0x40]);
                }
            }
            (b, "byteset")
        }
        5 => {
            encode(s, &v, &mut b).ok();
            let k = r.below(b.len() + 1);
            if r.chance(1, 2) || b.is_empty() {
                let x = r.u8();
                b.insert(k, x)
            } else {
                b.remove(k.min(b.len() - 1));
            }
            (b, "insert/delete")
        }
        6 | 7 => {
            encode_faulty(s, &v, r, 3, &mut b);
            (b, "faulty-dense")
        }
        8 | 9 => {
            encode_faulty(s, &v, r, 12, &mut b);
            (b, "faulty-sparse")
        }
        10 => {
            let n = r.long(40);
            (r.spicy_bytes(n), "spicy")
        }
        _ => {
            let n = r.size(24);
            (r.bytes(n), "random")
        }
    }
}

/// Decode a whole buffer with the default rules (what follows the value is ignored).
pub fn decode_all(s: &Schema, b: &[u8]) -> Result<Value, Rej> {
    let mut cur = Cursor::new(b);
    cur.cfg.check_padding = cfg!(feature = "check_padding");
    decode(s, &mut cur)
}
