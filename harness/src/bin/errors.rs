//! C21: errors state the facts of the failure, rendering any error or value
//! never panics, and wrapping keeps the cause reachable.
//! (Failures of parsers and codecs are checked by the codec and hist monitors;
//! this one covers conversions, wrapping and rendering.)

use mon::hist::{apply, gen_buf, gen_op, Bias, Model};
use mon::model;
use mon::ops::{universe, AnyP, AnyT, Kind, TyOps, KINDS, NTARGETS};
use mon::prng::Rng;
use mon::rep::{hex, Ctx};
use std::convert::TryFrom;
use std::error::Error;
use std::fmt::{self, Debug, Display, Write};
use std::str::FromStr;
use tedium::conv::error::DecodeError;
use tedium::conv::target::Target;
use tedium::error::{BoundsError, HexConvError, LengthError, WidthError};
use tedium::parse::cleanup::{InvariantError, LeftoverState};
use tedium::parse::error::{ExternalError, InternalError, TagError, TokenError, WindowError};
use tedium::*;

/// accepts only so many bytes, then reports a write error
struct Limited(usize);
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.0 {
            return Err(fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

fn show<T: Debug + Display + ?Sized>(r: &mut Rng, x: &T) -> usize {
    let (w, p) = (*r.pick(&[0usize, 1, 7, 40, 300]), *r.pick(&[0usize, 1, 3, 17]));
    let mut n = 0;
    n += format!("{x}").len();
    n += format!("{x:w$}").len() + format!("{x:>w$.p$}").len() + format!("{x:+#0w$}").len() + format!("{x:é<w$}").len();
    let _ = write!(Limited(r.below(30)), "{x}");
    n + dbg(r, x)
}
fn dbg<T: Debug + ?Sized>(r: &mut Rng, x: &T) -> usize {
    let (w, p) = (*r.pick(&[0usize, 1, 7, 40, 300]), *r.pick(&[0usize, 1, 3, 17]));
    let n = format!("{x:?}").len() + format!("{x:#?}").len() + format!("{x:w$.p$?}").len() + format!("{x:#0w$x?}").len() + format!("{x:X?}").len();
    let _ = write!(Limited(r.below(30)), "{x:?}");
    n
}

fn rendered<T: Debug + Display>(c: &mut Ctx, r: &mut Rng, what: &str, x: &T) {
    if let Err(p) = c.guard(|| show(r, x)) {
        c.violation(format!("render/{what}"), p.0);
    }
    c.count("renderings under a panic trap", 11);
}
fn debugged<T: Debug>(c: &mut Ctx, r: &mut Rng, what: &str, x: &T) {
    if let Err(p) = c.guard(|| dbg(r, x)) {
        c.violation(format!("render/{what}"), p.0);
    }
    c.count("renderings under a panic trap", 6);
}

/// the whole chain of causes, itself included
fn chain<'a>(e: &'a (dyn Error + 'static)) -> Vec<&'a (dyn Error + 'static)> {
    let mut v = vec![e];
    let mut cur = e;
    while let Some(s) = cur.source() {
        v.push(s);
        cur = s;
        if v.len() > 12 {
            break;
        }
    }
    v
}

#[derive(Debug, Clone, PartialEq)]
struct Deep(u64);
impl Display for Deep {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "deep cause {}", self.0)
    }
}
impl Error for Deep {}
#[derive(Debug)]
struct Mine(Deep);
impl Display for Mine {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "mine")
    }
}
impl Error for Mine {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        Some(&self.0)
    }
}

fn num(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => 0,
        1 => usize::MAX - r.below(2),
        2 => r.u64() as usize,
        _ => r.below(1000),
    }
}
fn inum(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => i64::MIN,
        1 => i64::MAX,
        2 => r.u64() as i64,
        _ => r.below(1000) as i64 - 500,
    }
}
fn text(r: &mut Rng) -> String {
    let n = r.long(14);
    (0..n).map(|_| *r.pick(&['a', 'F', '0', 'g', 'é', '🦀', '{', '}', '%', '"', '\n', '\0'])).collect()
}

fn width_error(r: &mut Rng) -> (WidthError, Vec<String>) {
    let (a, b) = (num(r), num(r));
    match r.below(3) {
        0 => (WidthError::TooWide { limit: a, actual: b }, vec![a.to_string(), b.to_string()]),
        1 => (WidthError::WrongWidth { exact: a, actual: b }, vec![a.to_string(), b.to_string()]),
        _ => (WidthError::InvalidWidth { valid: *r.pick(&[&[][..], &[1usize, 2, 4], &[usize::MAX]]), actual: b }, vec![b.to_string()]),
    }
}
fn length_error(r: &mut Rng) -> (LengthError, Vec<String>) {
    let (a, b) = (num(r), num(r));
    let e = if r.chance(1, 2) { LengthError::TooLong { limit: a, actual: b } } else { LengthError::WrongLength { exact: a, actual: b } };
    (e, vec![a.to_string(), b.to_string()])
}
fn bounds_error(r: &mut Rng) -> (BoundsError<i64>, Vec<String>) {
    let (a, b) = (inum(r), inum(r));
    let w = vec![a.to_string(), b.to_string()];
    match r.below(5) {
        0 => (BoundsError::Underflow { min: a, val: b }, w),
        1 => (BoundsError::Overflow { max: a, val: b }, w),
        2 => (BoundsError::InvalidBounds { min: a, max: b }, w),
        3 => (BoundsError::IllegalNegative { min: a, val: b }, w),
        _ => (BoundsError::from(u8::try_from(256i32).unwrap_err()), vec![]),
    }
}
fn float_error(r: &mut Rng) -> BoundsError<f64> {
    let (a, b) = (f64::from_bits(r.u64()), *r.pick(&[f64::NAN, 0.0, -0.0, 1e308, f64::NEG_INFINITY]));
    match r.below(4) {
        0 => BoundsError::Underflow { min: a, val: b },
        1 => BoundsError::Overflow { max: a, val: b },
        2 => BoundsError::InvalidBounds { min: a, max: b },
        _ => BoundsError::IllegalNegative { min: a, val: b },
    }
}
fn window_error(r: &mut Rng) -> (WindowError, Vec<String>) {
    let (a, b, d) = (num(r), num(r), num(r));
    match r.below(6) {
        0 => (WindowError::ConsumeWouldExceedLimit { offset: a, requested: b, limit: d }, vec![a.to_string(), b.to_string(), d.to_string()]),
        1 => (WindowError::OpenWouldExceedBuffer { bytes_left: a, request: b }, if a == 0 { vec![b.to_string()] } else { vec![a.to_string(), b.to_string()] }),
        2 => (WindowError::OpenWouldExceedWindow { limit: a, request: b }, vec![a.to_string(), b.to_string()]),
        3 => (WindowError::CloseWithResidue { residual: a }, vec![a.to_string()]),
        4 => (WindowError::CloseWithoutWindow, vec![]),
        _ => (WindowError::OffsetOverflow { excess: a }, vec![a.to_string()]),
    }
}
fn token_error(r: &mut Rng) -> (TokenError, Vec<String>) {
    let k = r.long(9);
    let b = r.spicy_bytes(k);
    match r.below(6) {
        0 => {
            let x = r.u8();
            (TokenError::InvalidBoolean(x), vec![format!("{x:02x}")])
        }
        1 => {
            let x = r.u8();
            (TokenError::InvalidTagU8(TagError::new(x, "SomeType", Some(b))), vec![format!("{x:x}"), "SomeType".into()])
        }
        2 => {
            let x = r.u64() as u16;
            (TokenError::InvalidTagU16(TagError::from(x)), vec![format!("{x:x}")])
        }
        3 => {
            let x = r.u64() as u32;
            (TokenError::InvalidTagU30(TagError::with_type::<Deep>(x, Some(vec![1, u32::MAX]))), vec![format!("{x:x}"), "Deep".into()])
        }
        4 => (TokenError::NonTerminating(b.clone()), vec![hex(&b)]),
        _ => (TokenError::NonNullPaddingByte { padding: b.clone() }, vec![hex(&b)]),
    }
}

/// an error, the facts its message must mention, and the value the chain must contain
fn mentions(c: &mut Ctx, kind: &str, e: &dyn Display, facts: &[String]) {
    let s = e.to_string();
    let low = s.to_lowercase();
    for f in facts {
        c.check(low.contains(&f.to_lowercase()), || format!("message/{kind}"), || format!("{s:?} does not mention {f}"));
    }
}

macro_rules! wrapped {
    ($c:ident, $r:ident, $kind:expr, $e:expr, $facts:expr, $t:ty, $same:expr) => {{
        let (e, facts): ($t, Vec<String>) = ($e, $facts);
        let kind: &str = $kind;
        $c.seen(format!("{kind}/{e:?}").as_bytes());
        rendered($c, $r, kind, &e);
        mentions($c, kind, &e, &facts);
        let shown = e.to_string();
        let parse = ParseError::from(e);
        rendered($c, $r, &format!("Parse/{kind}"), &parse);
        mentions($c, kind, &parse, &facts);
        let same: &dyn Fn(&$t) -> bool = &$same;
        let found = |e: &(dyn Error + 'static)| chain(e).iter().skip(1).any(|x| x.downcast_ref::<$t>().map_or(false, |y| same(y) && y.to_string() == shown));
        $c.check(found(&parse), || format!("cause/{kind}"), || format!("{parse:?} has no cause {shown}"));
        let dec = DecodeError::from(parse);
        rendered($c, $r, &format!("Decode/{kind}"), &dec);
        mentions($c, kind, &dec, &facts);
        $c.check(found(&dec), || format!("cause/decode/{kind}"), || format!("{dec:?} has no cause {shown}"));
        let DecodeError::Parse(parse) = dec else { panic!("harness: variant") };
        let inv = if $r.chance(1, 2) { InvariantError::ErrorUnexpected(parse) } else { InvariantError::ErrorKindUnexpected(parse) };
        rendered($c, $r, &format!("Invariant/{kind}"), &inv);
        $c.check(found(&inv), || format!("cause/invariant/{kind}"), || format!("{inv:?} has no cause {shown}"));
        mentions($c, kind, &inv, &facts);
        let dec = DecodeError::from(inv);
        $c.check(found(&dec), || format!("cause/decode-invariant/{kind}"), || format!("{dec:?}"));
        rendered($c, $r, &format!("Decode/Invariant/{kind}"), &dec);
        $c.count("wrapped causes looked up", 4);
    }};
}

fn wrapping(c: &mut Ctx, r: &mut Rng) {
    let (e, f) = width_error(r);
    let x = e.clone();
    wrapped!(c, r, "width", e, f, WidthError, move |y| *y == x);
    let (e, f) = length_error(r);
    let x = e.clone();
    wrapped!(c, r, "length", e, f, LengthError, move |y| *y == x);
    let (e, f) = bounds_error(r);
    let x = e;
    wrapped!(c, r, "bounds", e, f, BoundsError<i64>, move |y| *y == x);
    let e = float_error(r);
    let x = format!("{e:?}");
    wrapped!(c, r, "float", e, vec![], BoundsError<f64>, move |y| format!("{y:?}") == x);
    let (e, f) = window_error(r);
    let x = e;
    let inv = InvariantError::ErrorCaseUnexpected(e);
    rendered(c, r, "Invariant/window-case", &inv);
    mentions(c, "Invariant/window-case", &inv, &f);
    c.check(chain(&inv).iter().skip(1).any(|y| y.downcast_ref::<WindowError>() == Some(&e)), || "cause/invariant/window-case".into(), || format!("{inv:?}"));
    wrapped!(c, r, "window", e, f, WindowError, move |y| *y == x);
    let (e, f) = token_error(r);
    let x = e.clone();
    wrapped!(c, r, "token", e, f, TokenError, move |y| *y == x);
    let e = if r.chance(1, 2) { InternalError::NoValidTags } else { InternalError::from(<[u8; 3]>::try_from(&[1u8][..]).unwrap_err()) };
    let x = format!("{e:?}");
    wrapped!(c, r, "internal", e, vec![], InternalError, move |y| format!("{y:?}") == x);
    let bad = String::from_utf8(vec![b'a', 0xff, 0xfe]).unwrap_err();
    let x = bad.clone();
    wrapped!(c, r, "utf8", bad, vec![], std::string::FromUtf8Error, move |y| *y == x);
    // a caller's own error, by either way of wrapping it
    let tag = r.u64();
    for way in 0..3 {
        let e = match way {
            0 => ParseError::reify(Mine(Deep(tag))),
            1 => ParseError::from(Box::<dyn Error + Send + Sync>::from(Mine(Deep(tag)))),
            _ => ParseError::External(ExternalError::GenericError(Box::new(Mine(Deep(tag))))),
        };
        rendered(c, r, "generic", &e);
        c.check(e.to_string() == "mine", || "message/generic".into(), || e.to_string());
        let e = DecodeError::from(e);
        let all = chain(&e);
        c.check(all.iter().any(|x| x.downcast_ref::<Deep>() == Some(&Deep(tag))) && all.iter().any(|x| x.downcast_ref::<Mine>().is_some()), || "cause/generic".into(), || format!("{e:?}: {} links", all.len()));
    }
    // a tag error's parts
    let (x, k) = (r.u64() as u16, r.size(8));
    let valid: Vec<u16> = (0..k).map(|_| r.u64() as u16).collect();
    let e = TagError::new(x, "Colour", Some(valid.clone()));
    rendered(c, r, "tag", &e);
    mentions(c, "tag", &e, &[format!("{x:x}"), "Colour".into()]);
    let d = mon::hist::ints_in(&format!("{e:?}"));
    c.check(d.iter().filter(|y| **y == x as u64).count() >= 1 && valid.iter().all(|v| d.contains(&(*v as u64))), || "tag/parts".into(), || format!("{e:?} for {x} of {valid:?}"));
    let p: ParseError = e.clone().into();
    let ok = matches!(&p, ParseError::Token(TokenError::InvalidTagU16(y)) if *y == e);
    c.check(ok, || "cause/tag".into(), || format!("{p:?}"));
    c.check(chain(&p).iter().any(|l| l.downcast_ref::<TagError<u16>>() == Some(&e)), || "cause/tag/chain".into(), || format!("{p:?}"));
    macro_rules! tag_cause {
        ($t:ty, $v:ident, $x:expr) => {
            let e = TagError::<$t>::new($x, "Colour", if r.chance(1, 3) { None } else { Some(vec![$x]) });
            let p: ParseError = e.clone().into();
            c.check(matches!(&p, ParseError::Token(TokenError::$v(y)) if *y == e), || concat!("cause/tag/", stringify!($v)).into(), || format!("{p:?}"));
            rendered(c, r, concat!("tag/", stringify!($v)), &p);
            let d = DecodeError::from(p);
            let links = chain(&d);
            c.check(links.iter().skip(1).any(|l| l.downcast_ref::<TagError<$t>>() == Some(&e)), || concat!("cause/tag-chain/", stringify!($v)).into(), || format!("{d:?}"));
            c.check(links.iter().skip(1).any(|l| matches!(l.downcast_ref::<TokenError>(), Some(TokenError::$v(_)))), || concat!("cause/token-chain/", stringify!($v)).into(), || format!("{d:?}"));
        };
    }
    tag_cause!(u8, InvalidTagU8, r.u8());
    tag_cause!(u16, InvalidTagU16, r.u64() as u16);
    tag_cause!(u32, InvalidTagU30, r.u64() as u32 & 0x3fff_ffff);
    // what the innermost wrappers hold
    let e = u8::try_from(r.range(256, 70000)).unwrap_err();
    let p = ParseError::from(BoundsError::<i64>::from(e));
    c.check(chain(&p).iter().any(|l| l.downcast_ref::<std::num::TryFromIntError>() == Some(&e)), || "cause/bounds-failed".into(), || format!("{p:?}"));
    let p = ParseError::from(InternalError::from(<[u8; 3]>::try_from(&[1u8][..]).unwrap_err()));
    c.check(chain(&p).iter().any(|l| l.downcast_ref::<std::array::TryFromSliceError>().is_some()), || "cause/slice-coerce".into(), || format!("{p:?}"));
    // hex conversion errors
    let t = text(r);
    for e in [HexConvError::OddParity(t.clone()), HexConvError::NonHex(t.clone())] {
        rendered(c, r, "hexconv", &e);
        let d = DecodeError::from(e.clone());
        rendered(c, r, "Decode/hexconv", &d);
        c.check(chain(&d).iter().any(|l| l.downcast_ref::<HexConvError>() == Some(&e)), || "cause/hexconv".into(), || format!("{d:?}"));
        if let Ok(d) = c.guard(|| format!("{e:?}{e}")) {
            c.check(d.contains(&t), || "message/hexconv".into(), || format!("{d} for {t:?}"));
        }
    }
}

/// The stated excess must be the real one; with a positive minimum the
/// library may speak of offsets from it.
fn bounds_fact(e: &BoundsError<i128>, min: i128, max: i128, x: i128) -> bool {
    match *e {
        BoundsError::Underflow { min: m, val } => x < min && val - m == x - min && (m == min || m == 0),
        BoundsError::Overflow { max: m, val } => x > max && val - m == x - max && (m == max || m == max - min),
        BoundsError::IllegalNegative { min: m, val } => min > 0 && x < min && m == min && val < 0 && (val == x || val == x - min),
        BoundsError::InvalidBounds { min: m, max: n } => min > max && m == min && n == max,
        BoundsError::Failed(_) => false,
    }
}
fn wide(e: BoundsError<i64>) -> BoundsError<i128> {
    match e {
        BoundsError::Underflow { min, val } => BoundsError::Underflow { min: min.into(), val: val.into() },
        BoundsError::Overflow { max, val } => BoundsError::Overflow { max: max.into(), val: val.into() },
        BoundsError::InvalidBounds { min, max } => BoundsError::InvalidBounds { min: min.into(), max: max.into() },
        BoundsError::IllegalNegative { min, val } => BoundsError::IllegalNegative { min: min.into(), val: val.into() },
        BoundsError::Failed(e) => BoundsError::Failed(e),
    }
}

fn conversions(c: &mut Ctx, r: &mut Rng) {
    macro_rules! ranged {
        ($b:ty, $min:literal, $max:literal) => {{
            type R = RangedInt<$b, { $min }, { $max }>;
            const LO: i128 = $min;
            const HI: i128 = $max;
            let name = concat!(stringify!($b), "[", $min, ",", $max, "]");
            for _ in 0..3 {
                let x: i64 = match r.below(7) {
                    0 => $min as i64 - 1,
                    1 => $max as i64 + 1,
                    2 => $min as i64 - r.below(1000) as i64,
                    3 => $max as i64 + r.below(1000) as i64,
                    4 => 0,
                    5 => *r.pick(&[i32::MIN as i64, i32::MAX as i64, -1, 1]),
                    _ => r.u64() as i32 as i64,
                };
                c.seen(format!("{name}/{x}").as_bytes());
                if let Ok(x) = i32::try_from(x) {
                    match c.guard(|| R::try_from_i32(x)) {
                        Ok(Ok(_)) => {}
                        Ok(Err(e)) => {
                            c.check(bounds_fact(&wide(e), LO, HI, x.into()), || format!("conversion/{name}/try_from_i32"), || format!("{x}: {e:?}"));
                            rendered(c, r, "bounds", &e);
                        }
                        Err(p) => c.violation(format!("conversion/{name}/try_from_i32/panic"), format!("{x}: {}", p.0)),
                    }
                    match c.guard(|| <R as TryFrom<i32>>::try_from(x)) {
                        Ok(Ok(_)) => {}
                        Ok(Err(e)) => {
                            c.check(bounds_fact(&e, LO, HI, x.into()), || format!("conversion/{name}/TryFrom-i32"), || format!("{x}: {e:?}"));
                            rendered(c, r, "bounds128", &e);
                        }
                        Err(p) => c.violation(format!("conversion/{name}/TryFrom-i32/panic"), format!("{x}: {}", p.0)),
                    }
                }
                match c.guard(|| <R as TryFrom<i64>>::try_from(x)) {
                    Ok(Ok(_)) => {}
                    Ok(Err(e)) => c.check(bounds_fact(&e, LO, HI, x.into()), || format!("conversion/{name}/TryFrom-i64"), || format!("{x}: {e:?}")),
                    Err(p) => c.violation(format!("conversion/{name}/TryFrom-i64/panic"), format!("{x}: {}", p.0)),
                }
                if let Ok(raw) = <$b>::try_from(x) {
                    let val = raw as i128 + LO.max(0);
                    if let Ok(Err(e)) = c.guard(|| R::try_from_underlying(raw)) {
                        c.check(bounds_fact(&wide(e), LO, HI, val), || format!("conversion/{name}/try_from_underlying"), || format!("{raw}: {e:?}"));
                    }
                }
                c.count("number conversions", 1);
            }
        }};
    }
    ranged!(u8, 0, 100);
    ranged!(u8, 5, 250);
    ranged!(i8, -100, 100);
    ranged!(i8, -3, -1);
    ranged!(u16, 1000, 1000);
    ranged!(u16, 300, 65000);
    ranged!(i16, -5, 30000);
    ranged!(i16, 20, 300);
    ranged!(u32, 0, 0x3fff_ffff);
    ranged!(u32, 70000, 0x3fff_ffff);
    ranged!(i32, -0x4000_0000, 0x3fff_ffff);
    // floats
    const A: u64 = (-1.5f64).to_bits();
    const B: u64 = (2.5f64).to_bits();
    type F = RangedFloat<A, B>;
    let x = *r.pick(&[f64::NAN, -1.5000001, 2.5000001, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, 3.0, -2.0]);
    let okf = |e: &BoundsError<f64>, x: f64| match *e {
        BoundsError::Underflow { min, val } => min == -1.5 && !(x >= -1.5) && val.to_bits() == x.to_bits(),
        BoundsError::Overflow { max, val } => max == 2.5 && !(x <= 2.5) && val.to_bits() == x.to_bits(),
        _ => false,
    };
    for (how, e) in [("try_from_f64", F::try_from_f64(x).err()), ("prevalidate", F::prevalidate_f64(x).err()), ("TryFrom", F::try_from(x).err())] {
        match e {
            None => c.violation(format!("conversion/float/{how}"), format!("{x} accepted")),
            Some(e) => {
                c.check(okf(&e, x), || format!("conversion/float/{how}"), || format!("{x}: {e:?}"));
                rendered(c, r, "float", &e);
            }
        }
    }
    let y = x as f32;
    if let Err(e) = F::try_from(y) {
        c.check(okf(&e, y as f64) || y.is_nan(), || "conversion/float/f32".into(), || format!("{y}: {e:?}"));
    }
    // hex text
    let t = text(r);
    let odd = t.len() % 2 == 1;
    let all_hex = t.bytes().all(|b| b.is_ascii_hexdigit());
    for (how, res) in [("FromStr", c.guard(|| HexString::from_str(&t))), ("from_hex", c.guard(|| HexString::from_hex(&t))), ("TryFrom-str", c.guard(|| HexString::try_from(t.as_str()))), ("TryFrom-String", c.guard(|| HexString::try_from(t.clone())))] {
        match res {
            Ok(Ok(_)) => {}
            Ok(Err(e)) => {
                let ok = match &e {
                    HexConvError::OddParity(s) => odd && *s == t,
                    HexConvError::NonHex(s) => !all_hex && *s == t,
                };
                c.check(ok, || format!("conversion/hex/{how}"), || format!("{t:?}: {e:?}"));
            }
            Err(p) => c.violation(format!("conversion/hex/{how}/panic"), format!("{t:?}: {}", p.0)),
        }
    }
    // counts and widths
    let n = if r.chance(1, 60) { *r.pick(&[255usize, 256, 261, 262, 65535, 65536, 65541, 65542, 70000, 131_077]) } else { r.size(12) };
    let v: Vec<u16> = (0..n).map(|_| r.u64() as u16).collect();
    if let Err(e) = LimSeq::<u16, 5>::try_from(v.clone()) {
        c.check(e == LengthError::TooLong { limit: 5, actual: n } && n > 5, || "conversion/limseq/vec".into(), || format!("{n}: {e:?}"));
    }
    if let Err(e) = LimSeq::<u16, 5>::try_from(&v[..]) {
        c.check(e == LengthError::TooLong { limit: 5, actual: n } && n > 5, || "conversion/limseq/slice".into(), || format!("{n}: {e:?}"));
    }
    if let Err(e) = FixSeq::<u16, 5>::try_from(&v[..]) {
        c.check(e == LengthError::WrongLength { exact: 5, actual: n } && n != 5, || "conversion/fixseq/slice".into(), || format!("{n}: {e:?}"));
    }
    if let Err(e) = FixSeq::<u16, 5>::try_from(v.clone()) {
        c.check((e == LengthError::TooLong { limit: 5, actual: n } && n > 5) || (e == LengthError::WrongLength { exact: 5, actual: n } && n != 5), || "conversion/fixseq/vec".into(), || format!("{n}: {e:?}"));
    }
    let k = if r.chance(1, 40) { *r.pick(&[256usize, 260, 276, 65536, 65540, 65556, 70000]) } else { r.size(300) };
    let b = r.bytes(k);
    let want = |e: &WidthError, x: usize| *e == WidthError::WrongWidth { exact: x, actual: k };
    if let Err(e) = FixedBytes::<20>::try_from_slice(&b) {
        c.check(want(&e, 20), || "conversion/fixedbytes".into(), || format!("{k}: {e:?}"));
    }
    if let Err(e) = FixedString::<4>::try_from_bytes(&b) {
        c.check(want(&e, 4), || "conversion/fixedstring/bytes".into(), || format!("{k}: {e:?}"));
    }
    let s: String = b.iter().map(|x| (x & 0x7f) as char).collect();
    if let Err(e) = FixedString::<4>::from_str(&s) {
        c.check(want(&e, 4), || "conversion/fixedstring/str".into(), || format!("{k}: {e:?}"));
    }
    // payload lengths beyond the prefix
    let k = *r.pick(&[254usize, 255, 256, 257, 65535, 65536, 65537, 70000]);
    let d8 = Dynamic::<u8, Vec<u8>>::new(vec![0; k]).length_prefix();
    let d16 = Dynamic::<u16, Vec<u8>>::new(vec![0; k]).length_prefix();
    for (w, lim, e) in [("u8", 255, d8.map(|x| x as usize)), ("u16", 65535, d16.map(|x| x as usize))] {
        let ok = match &e {
            Ok(x) => k <= lim && *x == k,
            Err(e) => k > lim && *e == WidthError::TooWide { limit: lim, actual: k },
        };
        c.check(ok, || format!("conversion/prefix/{w}"), || format!("{k}: {e:?}"));
    }
    c.seen(format!("conv/{t}/{n}/{k}").as_bytes());
}

/// every value the library can make, rendered with any flags
fn values(c: &mut Ctx, r: &mut Rng, u: &[TyOps]) {
    let t = r.pick(u);
    let size = r.range(0, 12);
    let v = model::gen(&t.schema, r, size);
    let o = (t.make)(&v);
    if let Err(p) = c.guard(|| o.debug().len()) {
        c.violation(format!("render/value/{}", t.name), p.0);
    }
    c.seen(format!("value/{}/{v:?}", t.name).as_bytes());
    // and whatever hostile bytes decode to
    let (b, _) = model::gen_input(&t.schema, r, size);
    let kind = *r.pick(&KINDS);
    let res = c.guard(|| {
        let mut p = AnyP::new(kind, &b);
        match (t.parse)(&mut p) {
            Ok(o) => o.debug().len() + p.debug().len(),
            Err(e) => show(r, &e) + show(r, &DecodeError::from(e)) + p.debug().len(),
        }
    });
    if let Err(p) = res {
        c.violation(format!("render/decoded/{}", t.name), format!("{}: {}", hex(&b), p.0));
    }
    c.count("values and decode outcomes rendered", 2);
    macro_rules! both {
        ($name:literal, $x:expr) => {{
            let x = $x;
            rendered(c, r, $name, &x);
        }};
    }
    let n = r.long(40);
    let raw = r.spicy_bytes(n);
    both!("N", N::from(num_bigint::BigUint::from_bytes_be(&raw)));
    both!("Z", Z(num_bigint::BigInt::from_signed_bytes_be(&raw)));
    both!("HexString", HexString::from(raw.clone()));
    both!("FixedString", FixedString::<4>::from([r.u8(), r.u8(), r.u8(), r.u8()]));
    let q = u30::from_i32(r.below(1 << 30) as i32);
    debugged(c, r, "u30", &q);
    let q = i31::from_i32((r.u64() as i32) >> 1);
    debugged(c, r, "i31", &q);
    let q = RangedInt::<u8, 5, 250>::from_i32(r.range(5, 250) as i32);
    debugged(c, r, "RangedInt-offset", &q);
    let q = RangedInt::<i16, -5, -3>::from_i32(-(r.range(3, 5) as i32));
    debugged(c, r, "RangedInt-negative", &q);
    let q = RangedInt::<i16, -5, 300>::from_i32(r.range(0, 305) as i32 - 5);
    if let Err(p) = c.guard(|| format!("{q:x}{q:#X}{q:o}{q:#b}{q:012x}{q:+?}").len()) {
        c.violation("render/RangedInt-radix", p.0);
    }
    let fb = FixedBytes::<5>::from_array([r.u8(), r.u8(), r.u8(), r.u8(), r.u8()]);
    if let Err(p) = c.guard(|| format!("{fb:x}{fb:#x}{fb:30x}{fb:.2x}{fb:?}").len()) {
        c.violation("render/FixedBytes-hex", p.0);
    }
    both!("Dynamic", Dynamic::<u8, String>::new(text(r)));
    both!("Dynamic-wide", Dynamic::<u8, HexString2>::new(HexString2(r.range(0, 600))));
    both!("AutoBox", AutoBox::new(text(r)));
    // output targets with segments
    let mut t = AnyT::make(r.below(NTARGETS));
    for _ in 0..r.size(12) {
        match r.below(4) {
            0 => {
                let k = r.size(9);
                let b = r.bytes(k);
                t.push_all(&b);
            }
            1 => {
                t.push_one(r.u8());
            }
            2 => t.resolve(),
            _ => {
                t.resolve_zero();
            }
        }
    }
    match t {
        AnyT::C(x) => debugged(c, r, "ByteCounter", &x),
        AnyT::S(x) => {
            if let Err(p) = c.guard(|| (Builder::into_hex(x.clone()), String::from_utf8_lossy(&x.clone().into_vec()).len())) {
                c.violation("render/StrictBuilder-hex", p.0);
            }
        }
        AnyT::M(x) => {
            rendered(c, r, "MemoBuilder", &x);
            let f = x.clone().finalize();
            rendered(c, r, "MemoBuffer", &f);
        }
        AnyT::H(x) => rendered(c, r, "HexString", &x),
        AnyT::V(_) => {}
    }
    // leftovers
    let mut l = LeftoverState::Empty;
    for _ in 0..r.size(6) {
        debugged(c, r, "LeftoverState", &l);
        let k = r.size(6);
        let b = r.bytes(k);
        let _ = c.guard(|| match r.below(3) {
            0 => l.escape_context(),
            1 => l.append(&mut b.clone()),
            _ => l.append(&mut vec![]),
        });
    }
    debugged(c, r, "LeftoverState", &l);
    let d = DecodeError::NonEmpty(l);
    rendered(c, r, "Decode/NonEmpty", &d);
    c.check(d.source().is_none(), || "cause/nonempty".into(), String::new);
}

/// a content whose length exceeds what a one-byte prefix can carry
#[derive(Debug)]
struct HexString2(usize);
impl Display for HexString2 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Encode for HexString2 {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        vec![0u8; self.0].write_to(buf)
    }
}
impl tedium::conv::len::Estimable for HexString2 {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        self.0
    }
}

/// parsers render at every point of any history
fn parsers(c: &mut Ctx, r: &mut Rng) {
    let buf = gen_buf(r);
    let kind = *r.pick(&[Kind::Byte, Kind::Memo, Kind::Slice]);
    let mut p = AnyP::new(kind, &buf);
    let mut m = Model::new(&buf);
    let n = r.range(1, 25);
    for _ in 0..n {
        let op = gen_op(&m, r, Bias::Even);
        m.apply(&op);
        if c.guard(|| apply(&mut p, &op)).is_err() {
            return;
        }
        match c.guard(|| p.debug().len()) {
            Ok(l) => c.seen_u64(l as u64 ^ (n as u64) << 32),
            Err(e) => {
                c.violation(format!("render/parser/{}", kind.name()), e.0);
                return;
            }
        }
        c.count("parser states rendered", 1);
    }
    match c.guard(|| p.cleanup()) {
        Ok(Ok(l)) => debugged(c, r, "cleanup", &l),
        Ok(Err(e)) => rendered(c, r, "cleanup-error", &e),
        Err(_) => {}
    }
}

/// Values nothing in the type system stops anyone from building, which cannot
/// be encoded: too long for their length prefix, or with elements missing.
/// Printing them says what they hold; it is not an attempt to encode them.
fn unencodable(c: &mut Ctx, r: &mut Rng) {
    let over = *r.pick(&[256usize, 257, 300, 600]);
    let bytes = Bytes::from(vec![r.u8(); over]);
    let short = FixSeq::<u16, 3>::try_from(vec![r.u64() as u16; r.below(3)]);
    debugged(c, r, "Dynamic-overlong", &Dynamic::<u8, Bytes>::new(bytes.clone()));
    rendered(c, r, "Dynamic-overlong-text", &Dynamic::<u8, String>::new("x".repeat(over)));
    if let Ok(s) = &short {
        debugged(c, r, "FixSeq-undersaturated", s);
        debugged(c, r, "option-FixSeq-undersaturated", &Some(s.clone()));
    }
    debugged(c, r, "Sequence-overlong", &Sequence::<Dynamic<u8, Bytes>>::from(vec![Dynamic::new(bytes.clone())]));
    let inner = || Dynamic::<u8, Bytes>::new(bytes.clone());
    nested(c, r, "inner-prefix-too-small", &Dynamic::<u16, _>::new(inner()));
    nested(c, r, "inner-prefix-too-small", &Dynamic::<u30, _>::new(Sequence::<Dynamic<u8, Bytes>>::from(vec![inner()])));
    nested(c, r, "inner-prefix-too-small", &Dynamic::<u8, _>::new(Some(inner())));
    if let Ok(s) = short {
        nested(c, r, "undersaturated", &Dynamic::<u8, _>::new(s));
    }
    c.seen_u64(over as u64 ^ r.u64());
}

/// a length-prefixed value around one that cannot be encoded
fn nested<T: Debug>(c: &mut Ctx, r: &mut Rng, which: &str, x: &T) {
    if let Err(p) = c.guard(|| dbg(r, x)) {
        c.violation(format!("debug:Dynamic-over-unencodable:{which}"), p.0);
    }
    c.count("renderings under a panic trap", 6);
}

fn main() {
    let mut c = Ctx::from_args("C21");
    let u = universe();
    let k = c.n(2500, 80_000);
    c.cases("wrapping", k, wrapping);
    c.cases("conversions", k * 2, conversions);
    c.cases("values", k, |c, r| values(c, r, &u));
    c.cases("parsers", k, parsers);
    c.cases("unencodable", c.n(60, 1000), unencodable);
    c.finish()
}
