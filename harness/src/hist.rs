//! Parser histories: an executable model of the cursor/window contract and a
//! generator of operation sequences that are applied to the model and to the
//! real parsers in lockstep.

use crate::ops::AnyP;
use crate::prng::Rng;
use crate::rep::hex;
use std::collections::HashSet;
use tedium::parse::error::{ExternalError, InternalError, ParseError, TokenError, WindowError};
use tedium::parse::{ParseResult, ParserExt};
use tedium::{u30, Parser};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    F64,
    Bool,
}
pub const TYS: [Ty; 10] = [Ty::U8, Ty::I8, Ty::U16, Ty::I16, Ty::U32, Ty::I32, Ty::U64, Ty::I64, Ty::F64, Ty::Bool];

impl Ty {
    pub fn width(self) -> usize {
        match self {
            Ty::U8 | Ty::I8 | Ty::Bool => 1,
            Ty::U16 | Ty::I16 => 2,
            Ty::U32 | Ty::I32 => 4,
            _ => 8,
        }
    }
    fn signed(self) -> bool {
        matches!(self, Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Byte,
    Next,
    /// the parser as an iterator: 0 nth, 1 take, 2 skip, 3 size_hint, 4 position, 5 count (of what is left), 6 step_by, 7 last
    Iter(u8, usize),
    Consume(usize),
    Dynamic(usize),
    Arr(usize),
    Fixed(usize),
    Take(Ty),
    Tag(usize, Vec<u32>),
    /// terminator: 0 = high bit clear, 1 = equals the byte, 2 = never, 3 = always
    SelfTerm(u8, u8),
    SetFit(usize),
    Test,
    Enforce,
    Skip(usize),
    SkipExactly(usize),
    SkipDynamic(usize),
    Prefix(usize),
    /// (shape index, key)
    Kv(usize, Vec<u8>),
}

pub const ARRS: [usize; 9] = [0, 1, 2, 3, 4, 5, 8, 16, 33];
pub const KVS: [(usize, usize); 12] = [(1, 1), (2, 1), (1, 0), (2, 3), (4, 8), (0, 2), (3, 0), (1, 5), (9, 1), (12, 2), (17, 33), (32, 1)];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fact {
    Consume { want: usize, have: usize },
    /// `whole`: the error speaks of the bytes left in the buffer, not in the window
    Open { want: usize, have: usize, whole: bool },
    Residue(usize),
    NoWindow,
    Bool(u8),
    /// the numbers stated, in ascending order: the rendering they are read from says
    /// neither which comes first nor in which order a set lists its members
    Tag { width: usize, nums: Vec<u64> },
    NoTags,
    Unterminated(Vec<u8>),
    IntRange,
    Other(String),
}

impl Fact {
    pub fn kind(&self) -> &'static str {
        match self {
            Fact::Consume { .. } => "consume",
            Fact::Open { .. } => "open",
            Fact::Residue(_) => "residue",
            Fact::NoWindow => "no-window",
            Fact::Bool(_) => "bool",
            Fact::Tag { .. } => "tag",
            Fact::NoTags => "no-tags",
            Fact::Unterminated(_) => "unterminated",
            Fact::IntRange => "int-range",
            Fact::Other(_) => "other",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Unit,
    Num(i128),
    Bytes(Vec<u8>),
    Flag(bool),
    Opt(Option<Vec<u8>>),
    Fail(Fact),
}

impl Out {
    pub fn ok(&self) -> bool {
        !matches!(self, Out::Fail(_))
    }
}

/// integers in a debug rendering, quoted text left out
pub fn ints_in(s: &str) -> Vec<u64> {
    let mut out = vec![];
    let mut quoted = false;
    let mut esc = false;
    let mut cur: Option<u64> = None;
    let mut prev_word = false;
    for ch in s.chars() {
        if quoted {
            if esc {
                esc = false
            } else if ch == '\\' {
                esc = true
            } else if ch == '"' {
                quoted = false
            }
            continue;
        }
        if ch == '"' {
            quoted = true;
        }
        if ch.is_ascii_digit() && (cur.is_some() || !prev_word) {
            cur = Some(cur.unwrap_or(0).wrapping_mul(10).wrapping_add(ch as u64 - 48));
        } else {
            if let Some(x) = cur.take() {
                out.push(x)
            }
            prev_word = ch.is_alphanumeric() || ch == '_';
        }
    }
    out.extend(cur);
    out
}

/// The facts a library error states, and whether it is consistent in itself.
pub fn fact(e: &ParseError) -> Fact {
    let tag = |w: usize, dbg: String| {
        let mut v = ints_in(&dbg);
        if v.is_empty() {
            return Fact::Other(dbg);
        }
        v.sort();
        Fact::Tag { width: w, nums: v }
    };
    match e {
        ParseError::Window(w) => match *w {
            WindowError::ConsumeWouldExceedLimit { offset, requested, limit } => match limit.checked_sub(offset) {
                Some(have) => Fact::Consume { want: requested, have },
                None => Fact::Other(format!("{e:?}")),
            },
            WindowError::OpenWouldExceedBuffer { bytes_left, request } => Fact::Open { want: request, have: bytes_left, whole: true },
            WindowError::OpenWouldExceedWindow { limit, request } => Fact::Open { want: request, have: limit, whole: false },
            WindowError::CloseWithResidue { residual } => Fact::Residue(residual),
            WindowError::CloseWithoutWindow => Fact::NoWindow,
            _ => Fact::Other(format!("{e:?}")),
        },
        ParseError::Token(t) => match t {
            TokenError::InvalidBoolean(b) => Fact::Bool(*b),
            TokenError::InvalidTagU8(t) => tag(1, format!("{t:?}")),
            TokenError::InvalidTagU16(t) => tag(2, format!("{t:?}")),
            TokenError::InvalidTagU30(t) => tag(4, format!("{t:?}")),
            TokenError::NonTerminating(b) => Fact::Unterminated(b.clone()),
            _ => Fact::Other(format!("{e:?}")),
        },
        ParseError::Internal(InternalError::NoValidTags) => Fact::NoTags,
        ParseError::External(ExternalError::IntRangeViolation(_)) => Fact::IntRange,
        e => Fact::Other(format!("{e:?}")),
    }
}

/// The reference: a buffer, a position and the ends of the open windows.
#[derive(Clone, Debug)]
pub struct Model<'a> {
    pub buf: &'a [u8],
    pub pos: usize,
    pub ends: Vec<usize>,
    /// sizes of the successful consuming operations, in order
    pub spans: Vec<usize>,
    /// places in `spans` of operations that asked for bytes and got none
    pub empty: Vec<usize>,
}

impl<'a> Model<'a> {
    pub fn new(buf: &'a [u8]) -> Self {
        Model { buf, pos: 0, ends: vec![], spans: vec![], empty: vec![] }
    }
    pub fn end(&self) -> usize {
        *self.ends.last().unwrap_or(&self.buf.len())
    }
    pub fn rem(&self) -> usize {
        self.end() - self.pos
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], Fact> {
        if n > self.rem() {
            return Err(Fact::Consume { want: n, have: self.rem() });
        }
        let s = &self.buf[self.pos..self.pos + n];
        self.pos += n;
        self.spans.push(n);
        Ok(s)
    }
    fn open(&mut self, n: usize) -> Result<(), Fact> {
        if n > self.rem() {
            return Err(Fact::Open { want: n, have: self.rem(), whole: false });
        }
        self.ends.push(self.pos + n);
        Ok(())
    }
    fn close(&mut self) -> Result<(), Fact> {
        match self.ends.last() {
            None => Err(Fact::NoWindow),
            Some(&e) if e == self.pos => {
                self.ends.pop();
                Ok(())
            }
            Some(&e) => Err(Fact::Residue(e - self.pos)),
        }
    }
    fn uint(&mut self, w: usize) -> Result<u64, Fact> {
        Ok(self.take(w)?.iter().fold(0u64, |a, b| (a << 8) | *b as u64))
    }
    fn prefix(&mut self, w: usize) -> Result<usize, Fact> {
        let n = self.uint(w)? as usize;
        if w == 4 && n > 0x3fff_ffff {
            return Err(Fact::IntRange);
        }
        Ok(n)
    }
    pub fn apply(&mut self, op: &Op) -> Out {
        let res = self.try_apply(op);
        if let (Some(0), Op::Consume(_) | Op::Dynamic(_) | Op::Arr(_) | Op::Fixed(_) | Op::Skip(_) | Op::SkipExactly(_), Ok(_)) = (self.spans.last(), op, &res) {
            self.empty.push(self.spans.len() - 1);
        }
        match res {
            Ok(o) => o,
            Err(f) => Out::Fail(f),
        }
    }
    fn try_apply(&mut self, op: &Op) -> Result<Out, Fact> {
        Ok(match op {
            Op::Byte => Out::Num(self.take(1)?[0] as i128),
            Op::Next => Out::Opt(self.take(1).ok().map(|b| b.to_vec())),
            Op::Iter(kind, n) => {
                let mut next = || self.take(1).ok().map(|b| b[0]);
                match kind {
                    0 | 2 => {
                        for _ in 0..*n {
                            if next().is_none() {
                                return Ok(Out::Opt(None));
                            }
                        }
                        Out::Opt(next().map(|b| vec![b]))
                    }
                    1 => {
                        let mut v = vec![];
                        while v.len() < *n {
                            match next() {
                                Some(b) => v.push(b),
                                None => break,
                            }
                        }
                        Out::Bytes(v)
                    }
                    3 => Out::Flag(true),
                    4 => {
                        let mut i = 0;
                        loop {
                            match next() {
                                None => break Out::Num(-1),
                                Some(b) if b == *n as u8 => break Out::Num(i),
                                Some(_) => i += 1,
                            }
                        }
                    }
                    5 => {
                        let mut i = 0;
                        while next().is_some() {
                            i += 1
                        }
                        Out::Num(i)
                    }
                    6 => {
                        // step_by: the first, then every (n + 1)-th; two items taken
                        let mut v: Vec<u8> = next().into_iter().collect();
                        if !v.is_empty() {
                            let mut miss = false;
                            for _ in 0..*n {
                                if next().is_none() {
                                    miss = true;
                                    break;
                                }
                            }
                            if !miss {
                                v.extend(next());
                            }
                        }
                        Out::Bytes(v)
                    }
                    _ => {
                        let mut l = None;
                        while let Some(b) = next() {
                            l = Some(vec![b])
                        }
                        Out::Opt(l)
                    }
                }
            }
            Op::Consume(n) | Op::Dynamic(n) | Op::Arr(n) | Op::Fixed(n) => Out::Bytes(self.take(*n)?.to_vec()),
            Op::Take(t) => {
                let w = t.width();
                let raw = self.uint(w)?;
                match t {
                    Ty::Bool => match raw {
                        0xff => Out::Flag(true),
                        0x00 => Out::Flag(false),
                        b => return Err(Fact::Bool(b as u8)),
                    },
                    t if t.signed() => {
                        let sh = 64 - 8 * w as u32;
                        Out::Num((((raw << sh) as i64) >> sh) as i128)
                    }
                    _ => Out::Num(raw as i128),
                }
            }
            Op::Tag(w, valid) => {
                let raw = self.uint(*w)?;
                if valid.iter().any(|v| *v as u64 == raw) {
                    Out::Num(raw as i128)
                } else if valid.is_empty() {
                    return Err(Fact::NoTags);
                } else {
                    let mut nums: Vec<u64> = valid.iter().map(|v| *v as u64).chain([raw]).collect();
                    nums.sort();
                    return Err(Fact::Tag { width: *w, nums });
                }
            }
            Op::SelfTerm(kind, arg) => {
                let start = self.pos;
                loop {
                    match self.take(1) {
                        Ok(b) => {
                            if terminal(*kind, *arg, b[0]) {
                                break Out::Bytes(self.buf[start..self.pos].to_vec());
                            }
                        }
                        Err(_) => return Err(Fact::Unterminated(self.buf[start..self.pos].to_vec())),
                    }
                }
            }
            Op::SetFit(n) => {
                self.open(*n)?;
                Out::Unit
            }
            Op::Test => Out::Flag(self.ends.last() == Some(&self.pos)),
            Op::Enforce => {
                self.close()?;
                Out::Unit
            }
            Op::Skip(n) => {
                let d = (*n).min(self.rem());
                self.take(d)?;
                Out::Num(d as i128)
            }
            Op::SkipExactly(n) => {
                self.take(*n)?;
                Out::Unit
            }
            Op::SkipDynamic(w) => {
                let n = self.prefix(*w)?;
                self.open(n)?;
                self.take(n)?;
                self.close()?;
                Out::Num(n as i128)
            }
            Op::Prefix(w) => {
                let n = self.prefix(*w)?;
                self.open(n)?;
                Out::Num(n as i128)
            }
            Op::Kv(ix, key) => {
                let (m, n) = KVS[*ix];
                loop {
                    if self.rem() == 0 {
                        break Out::Opt(None);
                    }
                    let k = self.take(m)?;
                    let v = self.take(n)?;
                    if k == key.as_slice() {
                        break Out::Opt(Some(v.to_vec()));
                    }
                }
            }
        })
    }
    /// unread bytes: one piece per open window, innermost first, then the rest
    pub fn leftover(&self) -> (Vec<Vec<u8>>, Vec<u8>) {
        let mut p = self.pos;
        let mut out = vec![];
        for e in self.ends.iter().rev() {
            out.push(self.buf[p..*e].to_vec());
            p = *e;
        }
        (out, self.buf[p..].to_vec())
    }
}

pub fn terminal(kind: u8, arg: u8, b: u8) -> bool {
    match kind {
        0 => b & 0x80 == 0,
        1 => b == arg,
        2 => false,
        _ => true,
    }
}

struct Marker;

/// Apply an operation to a real parser. `inherent_next` uses Iterator::next.
pub fn apply(p: &mut AnyP<'_>, op: &Op) -> Out {
    match try_apply(p, op) {
        Ok(o) => o,
        Err(e) => Out::Fail(fact(&e)),
    }
}

pub fn try_apply(p: &mut AnyP<'_>, op: &Op) -> ParseResult<Out> {
    macro_rules! arr {
        ($m:ident, $n:expr) => {
            match $n {
                0 => p.$m::<0>()?.to_vec(),
                1 => p.$m::<1>()?.to_vec(),
                2 => p.$m::<2>()?.to_vec(),
                3 => p.$m::<3>()?.to_vec(),
                4 => p.$m::<4>()?.to_vec(),
                5 => p.$m::<5>()?.to_vec(),
                8 => p.$m::<8>()?.to_vec(),
                16 => p.$m::<16>()?.to_vec(),
                33 => p.$m::<33>()?.to_vec(),
                _ => unreachable!(),
            }
        };
    }
    macro_rules! array {
        ($t:ty, $v:ident, $how:expr; $($n:literal)*) => {
            match $v.len() {
                $($n => {
                    let a: [$t; $n] = $v.as_slice().try_into().unwrap();
                    if $how { p.take_tagword::<Marker, $t, _>(a)? } else { p.take_tagword::<Marker, $t, _>(&a)? }
                })*
                _ => p.take_tagword::<Marker, $t, _>($v)?,
            }
        };
    }
    // the valid tags are named through one of the kinds of container accepted
    macro_rules! tag {
        ($t:ty, $valid:expr) => {{
            let v: Vec<$t> = $valid.iter().map(|x| *x as $t).collect();
            let distinct: HashSet<$t> = v.iter().copied().collect();
            let pick = v.iter().fold(v.len(), |a, x| a.wrapping_mul(31).wrapping_add(*x as usize)) % 7;
            let got: $t = match pick {
                0 => p.take_tagword::<Marker, $t, _>(v.as_slice())?,
                1 => p.take_tagword::<Marker, $t, _>(&v)?,
                2 if distinct.len() == v.len() => p.take_tagword::<Marker, $t, _>(distinct)?,
                3 | 4 => array!($t, v, true; 0 1 2 3 4 16 17 31 32 33 63 64 65 128 129 255 256 300 301 999),
                5 => array!($t, v, false; 0 1 2 3 4 16 17 31 32 33 63 64 65 128 129 255 256 300 301 999),
                _ => p.take_tagword::<Marker, $t, _>(v)?,
            };
            Out::Num(got as i128)
        }};
    }
    macro_rules! kv {
        ($m:literal, $n:literal, $k:expr) => {{
            let k: [u8; $m] = $k.as_slice().try_into().unwrap();
            Out::Opt(p.fast_kv_search::<[u8; $m], Vec<u8>, _, $m, $n>(&k, |v: [u8; $n]| v.to_vec())?)
        }};
    }
    Ok(match op {
        Op::Byte => Out::Num(p.consume_byte()? as i128),
        Op::Next => Out::Opt(p.next_item().map(|b| vec![b])),
        Op::Iter(kind, n) => p.iterate(*kind, *n),
        Op::Consume(n) => Out::Bytes(p.consume(*n)?.to_vec()),
        Op::Dynamic(n) => Out::Bytes(p.take_dynamic(*n)?),
        Op::Arr(n) => Out::Bytes(arr!(consume_arr, *n)),
        Op::Fixed(n) => Out::Bytes(arr!(take_fixed, *n)),
        Op::Take(t) => match t {
            Ty::U8 => Out::Num(p.take_u8()? as i128),
            Ty::I8 => Out::Num(p.take_i8()? as i128),
            Ty::U16 => Out::Num(p.take_u16()? as i128),
            Ty::I16 => Out::Num(p.take_i16()? as i128),
            Ty::U32 => Out::Num(p.take_u32()? as i128),
            Ty::I32 => Out::Num(p.take_i32()? as i128),
            Ty::U64 => Out::Num(p.take_u64()? as i128),
            Ty::I64 => Out::Num(p.take_i64()? as i128),
            Ty::F64 => Out::Num(p.take_f64()?.to_bits() as i128),
            Ty::Bool => Out::Flag(p.take_bool()?),
        },
        Op::Tag(w, valid) => match w {
            1 => tag!(u8, valid),
            2 => tag!(u16, valid),
            _ => tag!(u32, valid),
        },
        Op::SelfTerm(k, a) => {
            let (k, a) = (*k, *a);
            Out::Bytes(p.take_self_terminating(move |b| terminal(k, a, b))?)
        }
        Op::SetFit(n) => {
            p.set_fit(*n)?;
            Out::Unit
        }
        Op::Test => Out::Flag(p.test_target()?),
        Op::Enforce => {
            p.enforce_target()?;
            Out::Unit
        }
        Op::Skip(n) => Out::Num(ParserExt::skip(p, *n)? as i128),
        Op::SkipExactly(n) => {
            p.skip_exactly(*n)?;
            Out::Unit
        }
        Op::SkipDynamic(w) => Out::Num(match w {
            1 => p.skip_dynamic::<u8>()?,
            2 => p.skip_dynamic::<u16>()?,
            _ => p.skip_dynamic::<u30>()?,
        } as i128),
        Op::Prefix(w) => Out::Num(match w {
            1 => p.process_prefix::<u8>()?,
            2 => p.process_prefix::<u16>()?,
            _ => p.process_prefix::<u30>()?,
        } as i128),
        Op::Kv(ix, key) => match ix {
            0 => kv!(1, 1, key),
            1 => kv!(2, 1, key),
            2 => kv!(1, 0, key),
            3 => kv!(2, 3, key),
            4 => kv!(4, 8, key),
            5 => kv!(0, 2, key),
            6 => kv!(3, 0, key),
            7 => kv!(1, 5, key),
            8 => kv!(9, 1, key),
            9 => kv!(12, 2, key),
            10 => kv!(17, 33, key),
            _ => kv!(32, 1, key),
        },
    })
}

/// the same effect through reading operations only (C18): None if it has no skipping form
pub fn by_reading(p: &mut AnyP<'_>, op: &Op) -> Option<Out> {
    fn read_prefix(p: &mut AnyP<'_>, w: usize) -> ParseResult<usize> {
        use tedium::Decode;
        Ok(match w {
            1 => u8::parse(p)? as usize,
            2 => u16::parse(p)? as usize,
            _ => u30::parse(p)?.into(),
        })
    }
    fn go(p: &mut AnyP<'_>, op: &Op) -> ParseResult<Option<Out>> {
        Ok(Some(match op {
            Op::Skip(n) => {
                let d = p.remainder().min(*n);
                let mut got = 0;
                for _ in 0..d {
                    p.consume_byte()?;
                    got += 1;
                }
                Out::Num(got as i128)
            }
            Op::SkipExactly(n) => {
                p.consume(*n)?;
                Out::Unit
            }
            Op::SkipDynamic(w) => {
                let n = read_prefix(p, *w)?;
                p.set_fit(n)?;
                p.consume(n)?;
                p.enforce_target()?;
                Out::Num(n as i128)
            }
            Op::Prefix(w) => {
                let n = read_prefix(p, *w)?;
                p.set_fit(n)?;
                Out::Num(n as i128)
            }
            Op::Kv(ix, key) => {
                let (m, n) = KVS[*ix];
                loop {
                    if p.remainder() == 0 {
                        break Out::Opt(None);
                    }
                    let k = p.take_dynamic(m)?;
                    let v = p.take_dynamic(n)?;
                    if &k == key {
                        break Out::Opt(Some(v));
                    }
                }
            }
            _ => return Ok(None),
        }))
    }
    match go(p, op) {
        Ok(o) => o,
        Err(e) => Some(Out::Fail(fact(&e))),
    }
}

pub const NAMES: [&str; 18] = [
    "Byte", "Next", "Consume", "Dynamic", "Arr", "Fixed", "Take", "Tag", "SelfTerm", "SetFit", "Test", "Enforce", "Skip", "SkipExactly", "SkipDynamic", "Prefix", "Kv", "Iter",
];

impl Op {
    pub fn index(&self) -> usize {
        match self {
            Op::Byte => 0,
            Op::Next => 1,
            Op::Consume(_) => 2,
            Op::Dynamic(_) => 3,
            Op::Arr(_) => 4,
            Op::Fixed(_) => 5,
            Op::Take(_) => 6,
            Op::Tag(..) => 7,
            Op::SelfTerm(..) => 8,
            Op::SetFit(_) => 9,
            Op::Test => 10,
            Op::Enforce => 11,
            Op::Skip(_) => 12,
            Op::SkipExactly(_) => 13,
            Op::SkipDynamic(_) => 14,
            Op::Prefix(_) => 15,
            Op::Kv(..) => 16,
            Op::Iter(..) => 17,
        }
    }
    pub fn name(&self) -> &'static str {
        NAMES[self.index()]
    }
}

pub fn primitive(op: &Op) -> bool {
    matches!(op, Op::Byte | Op::Next | Op::Consume(_) | Op::Dynamic(_) | Op::Arr(_) | Op::Fixed(_) | Op::SetFit(_) | Op::Test | Op::Enforce | Op::Skip(_) | Op::SkipExactly(_))
}

pub fn skipping(op: &Op) -> bool {
    matches!(op, Op::Skip(_) | Op::SkipExactly(_) | Op::SkipDynamic(_) | Op::Prefix(_) | Op::Kv(..))
}

/// argument for a size: around the boundaries of the current state
fn amount(m: &Model<'_>, r: &mut Rng) -> usize {
    let rem = m.rem();
    let all = m.buf.len() - m.pos;
    match r.below(16) {
        0 => 0,
        1 => 1,
        2 => rem,
        3 => rem + 1,
        4 => rem.saturating_sub(1),
        5 => all,
        6 => all + 1,
        7 => *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - m.pos, (usize::MAX - m.pos).wrapping_add(1), usize::MAX - m.end(), 1 << 30, 1 << 32, 1 << 62]),
        8 => r.range(0, all + 3),
        _ => r.range(0, rem.min(9)),
    }
}

/// weights: which operations the property at hand wants to see often
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bias {
    Even,
    Windows,
    Skips,
}

pub fn gen_op(m: &Model<'_>, r: &mut Rng, bias: Bias) -> Op {
    // a window that is exhausted is usually closed, so that histories go deep
    if !m.ends.is_empty() && m.rem() == 0 && r.chance(1, 3) {
        return Op::Enforce;
    }
    let k = match bias {
        Bias::Even => r.below(22),
        Bias::Windows => *r.pick(&[0, 1, 2, 2, 3, 9, 9, 9, 9, 10, 11, 11, 11, 12, 13, 15, 6, 8]),
        Bias::Skips => *r.pick(&[12, 12, 13, 13, 14, 14, 15, 15, 16, 16, 16, 9, 11, 0, 1, 2]),
    };
    match k {
        0 => Op::Byte,
        1 if r.chance(1, 3) => Op::Next,
        1 => Op::Iter(r.below(8) as u8, if r.chance(1, 8) { r.below(300) } else { amount(m, r).min(m.rem() + 2) }),
        2 | 17 => Op::Consume(amount(m, r)),
        3 => Op::Dynamic(amount(m, r)),
        4 => Op::Arr(*r.pick(&ARRS)),
        5 => Op::Fixed(*r.pick(&ARRS)),
        6 | 18 => Op::Take(*r.pick(&TYS)),
        7 => {
            let w = *r.pick(&[1usize, 2, 4]);
            // now and then a great many
            let n = if r.chance(1, 12) { *r.pick(&[15usize, 16, 31, 32, 63, 64, 127, 128, 254, 255, 300, 999]) + r.below(2) } else { r.below(4) };
            let mut v: Vec<u32> = (0..n).map(|_| r.u64() as u32 & [0, 0xff, 0xffff, 0, 0xffff_ffff][w]).collect();
            // often include the tag that is actually next
            if m.rem() >= w && r.chance(2, 3) {
                v.push(m.buf[m.pos..m.pos + w].iter().fold(0u32, |a, b| (a << 8) | *b as u32));
            }
            if r.chance(1, 3) {
                let n = v.len();
                v.rotate_left(r.below(n.max(1)));
            }
            Op::Tag(w, v)
        }
        8 => Op::SelfTerm(*r.pick(&[0u8, 0, 0, 1, 2, 3]), *r.pick(&[0u8, 0xff, 1, 0x7f])),
        9 | 19 => Op::SetFit(amount(m, r)),
        10 | 20 => Op::Test,
        11 | 21 => Op::Enforce,
        12 => Op::Skip(amount(m, r)),
        13 => Op::SkipExactly(amount(m, r)),
        14 => Op::SkipDynamic(*r.pick(&[1usize, 1, 2, 4])),
        15 => Op::Prefix(*r.pick(&[1usize, 1, 2, 4])),
        _ => {
            let ix = r.below(KVS.len());
            let (kl, vl) = KVS[ix];
            // usually a key that occurs at an entry boundary, or just off one
            let mut key = r.spicy_bytes(kl);
            if r.chance(3, 4) {
                let step = kl + vl;
                let at = m.pos + if step > 0 { step * r.below(4) } else { 0 } + if r.chance(1, 4) { r.below(3) } else { 0 };
                if at + kl <= m.buf.len() {
                    key = m.buf[at..at + kl].to_vec();
                }
            }
            Op::Kv(ix, key)
        }
    }
}

/// a buffer in which prefixes, terminators and repeated keys are frequent
pub fn gen_buf(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 if r.chance(1, 10) => r.long(1200),
        0 => r.below(3),
        1 | 2 => r.range(0, 12),
        3..=6 => r.range(4, 64),
        _ => r.range(40, 400),
    };
    match r.below(5) {
        0 => r.bytes(n),
        4 => kv_table(r, n),
        1 => (0..n).map(|_| r.below(5) as u8).collect(),
        2 => {
            // length-prefixed chunks
            let mut b = vec![];
            while b.len() < n {
                let l = r.below(7);
                match r.below(5) {
                    0 => b.push(l as u8),
                    1 => b.extend((l as u16).to_be_bytes()),
                    2 => b.extend((l as u32).to_be_bytes()),
                    // far more than there is, unless a bit of it is overlooked
                    3 => b.extend((l as u32 | 1 << r.range(8, 31)).to_be_bytes()),
                    _ => b.extend([0xff, 0xff, 0xff, r.u8()]),
                }
                b.extend(r.spicy_bytes(l));
            }
            b.truncate(n);
            b
        }
        _ => r.spicy_bytes(n),
    }
}

/// a key/value table whose keys agree except in one or two bytes
fn kv_table(r: &mut Rng, n: usize) -> Vec<u8> {
    let (kl, vl) = *r.pick(&KVS);
    let base = r.bytes(kl);
    // values of one byte over and over, now and then
    let plain = if r.chance(1, 4) { Some(*r.pick(&[0u8, 0xff, 0x80, 1])) } else { None };
    let mut b = vec![];
    while b.len() < n {
        let mut k = base.clone();
        for _ in 0..r.below(3) {
            if let Some(i) = kl.checked_sub(1).map(|m| if r.chance(1, 2) { m } else { r.range(0, m) }) {
                k[i] = k[i].wrapping_add(1 + r.below(3) as u8);
            }
        }
        b.extend(k);
        match plain {
            Some(x) => b.extend(vec![x; vl]),
            None => b.extend(r.bytes(vl)),
        }
        if kl + vl == 0 {
            break;
        }
    }
    if r.chance(1, 4) {
        b.truncate(n);
    }
    b
}

/// a history that nests windows far deeper than any message would, then closes
/// them from the inside out (or stops on the way)
pub struct Deep {
    depth: usize,
    opened: usize,
    shrink: usize,
    extra: usize,
    stop_after: usize,
}
impl Deep {
    pub fn new(r: &mut Rng) -> (Vec<u8>, Deep) {
        let depth = match r.below(5) {
            0 => r.range(9, 33),
            1 => r.range(33, 70),
            2 => r.range(125, 140),
            3 => r.range(253, 262),
            _ => *r.pick(&[200, 300, 511, 513, 600]),
        };
        let shrink = r.below(4);
        let n = if r.chance(1, 2) { r.range(0, 40) } else { r.range(depth, 2 * depth + 20) };
        let stop_after = if r.chance(1, 3) { r.below(3 * depth) } else { usize::MAX };
        (r.bytes(n), Deep { depth, opened: 0, shrink, extra: r.below(6), stop_after })
    }
    pub fn op(&mut self, m: &Model<'_>, r: &mut Rng, step: usize) -> Option<Op> {
        if step >= self.stop_after {
            return None;
        }
        let rem = m.rem();
        if self.opened < self.depth {
            return Some(match r.below(24) {
                0 => Op::Byte,
                1 => Op::Test,
                2 => Op::SetFit(rem + 1),
                3 if rem > 0 => Op::Enforce,
                _ => {
                    self.opened += 1;
                    Op::SetFit(match self.shrink {
                        0 => rem,
                        1 => rem.saturating_sub(1),
                        2 => rem - r.range(0, rem.min(3)),
                        _ => rem - if r.chance(1, 8) { r.range(0, rem) } else { 0 },
                    })
                }
            });
        }
        if m.ends.is_empty() {
            if self.extra == 0 {
                return None;
            }
            self.extra -= 1;
            return Some(match r.below(5) {
                0 => Op::Enforce,
                1 => Op::Test,
                2 => Op::SetFit(rem),
                3 => Op::Byte,
                _ => Op::Consume(rem + 1),
            });
        }
        Some(if rem > 0 {
            match r.below(12) {
                0 => Op::Enforce,
                1 => Op::Consume(rem + 1),
                2 => Op::Byte,
                3 => Op::Take(Ty::U16),
                4 => Op::Test,
                5 | 6 => Op::Skip(rem),
                7 => Op::SkipExactly(rem),
                _ => Op::Consume(rem),
            }
        } else {
            match r.below(16) {
                0 => Op::Test,
                1 => Op::Byte,
                2 => Op::SetFit(1),
                _ => Op::Enforce,
            }
        })
    }
}

/// a few windows, skips and closes over a buffer of 64 KiB to 16 MiB
pub struct Large {
    steps: usize,
    round: usize,
}
impl Large {
    pub fn new(r: &mut Rng) -> (Vec<u8>, Large) {
        let n = match r.below(60) {
            0 => (1 << 24) + *r.pick(&[0usize, 1, 3, 4, 5, 255, 256, 70_000]),
            1 | 2 => (1 << 20) + r.below(10),
            3..=12 => 65_530 + r.below(20),
            13..=25 => 65_536 + r.below(600),
            _ => r.range(65_536, 150_000),
        };
        let mut b = vec![*r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]); n];
        // prefixes that fit, or nearly, where the first operations will find them
        let mut at = 0;
        for _ in 0..6 {
            let left = n - at;
            let l = match r.below(6) {
                0 => r.below(9),
                1 => left.saturating_sub(2),
                2 => left,
                3 => r.range(0, left),
                _ => left.saturating_sub(4 + r.below(4)),
            };
            let p: &[u8] = match r.below(3) {
                0 => &(l as u32).to_be_bytes(),
                1 => &(l.min(0xffff) as u16).to_be_bytes(),
                _ => &[l.min(0xff) as u8],
            };
            let k = p.len().min(left);
            b[at..at + k].copy_from_slice(&p[..k]);
            at += k;
        }
        (b, Large { steps: r.range(4, 16), round: r.below(3) })
    }
    pub fn op(&mut self, m: &Model<'_>, r: &mut Rng, step: usize) -> Option<Op> {
        if step >= self.steps {
            return None;
        }
        if step < self.round {
            return Some(if r.chance(1, 2) { Op::Prefix(*r.pick(&[1, 2, 4])) } else { Op::SkipDynamic(*r.pick(&[1, 2, 4])) });
        }
        let rem = m.rem();
        let n = match r.below(14) {
            0 | 1 => rem,
            2..=4 => rem.saturating_sub(1),
            5 => rem + 1,
            6 => rem.saturating_sub(r.below(300)),
            7 => r.range(0, rem),
            8 => *r.pick(&[65_534usize, 65_535, 65_536, 65_537]),
            9 => *r.pick(&[1usize << 16, 1 << 17, 1 << 20, 1 << 24]) + r.below(3),
            10 => m.buf.len() - m.pos,
            11 => r.below(6),
            _ => rem.saturating_sub(65_536) + r.below(2),
        };
        Some(match r.below(20) {
            0..=6 => Op::SetFit(n),
            7 => Op::Skip(n),
            8 | 9 => Op::SkipExactly(n),
            10 => Op::Consume(n),
            11 => Op::Dynamic(n),
            12 if rem < 1 << 18 => Op::SelfTerm(0, r.below(256) as u8),
            13 => Op::Byte,
            14 => Op::Test,
            15 => Op::SkipDynamic(*r.pick(&[1, 2, 4])),
            16 => Op::Take(Ty::U32),
            _ => Op::Enforce,
        })
    }
}

/// thousands of operations on one parser
pub struct Long {
    steps: usize,
}
impl Long {
    pub fn new(r: &mut Rng) -> (Vec<u8>, Long) {
        let steps = *r.pick(&[258, 515, 700, 1030, 1300, 2050, 4100]) + r.below(40);
        (r.bytes(2 * steps), Long { steps })
    }
    pub fn op(&mut self, m: &Model<'_>, r: &mut Rng, step: usize) -> Option<Op> {
        if step >= self.steps || (m.ends.is_empty() && m.rem() == 0) {
            return None;
        }
        if m.rem() == 0 {
            return Some(Op::Enforce);
        }
        Some(match r.below(40) {
            0 => Op::SetFit(r.range(0, m.rem().min(40))),
            1 => Op::SetFit(r.range(0, m.rem())),
            2 => Op::Take(Ty::U32),
            3 => Op::Test,
            4 => Op::Skip(r.below(4)),
            5 => Op::SkipExactly(1),
            6 => Op::Arr(2),
            7 => Op::Consume(m.rem() + 1),
            8 => Op::SelfTerm(0, 0),
            9 => Op::Consume(0),
            10..=13 => Op::Next,
            14 => Op::Iter(*r.pick(&[0, 1, 2, 3, 6]), r.below(6)),
            15..=20 => Op::Take(Ty::U8),
            21..=25 => Op::Consume(1),
            26..=28 => Op::Consume(r.below(5)),
            _ => Op::Byte,
        })
    }
}

pub fn show(ops: &[Op]) -> String {
    if ops.len() > 60 {
        return format!("{} operations ... {}", ops.len() - 40, show(&ops[ops.len() - 40..]));
    }
    shown(ops)
}

fn shown(ops: &[Op]) -> String {
    ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("; ")
}

pub fn show_buf(b: &[u8]) -> String {
    hex(&b[..b.len().min(80)])
}
