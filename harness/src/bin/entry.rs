//! Entry-point monitor.
//! C25: every entry point on every kind of source gives the outcome of the
//!      plain parse of the same bytes.
//! C15: (built with `check_complete_parse`) a decode succeeds exactly when the
//!      plain decode does and leaves nothing unread, for every parser.
//! C19: (built with `implicit_hexstring`) text that is not hex is rejected, and
//!      nothing else changes.
use mon::errs;
use mon::model::{self, Schema, Value};
use mon::ops::{AnyP, Kind};
use mon::prng::{roomy, roomy_text, Rng};
use mon::rep::{hex, Ctx};
use mon::ty::{name, Ty};
use mon::universe::*;
use std::borrow::Cow;
use tedium::conv::error::DecodeError;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::cleanup::LeftoverState;
use tedium::*;

#[global_allocator]
static A: mon::alloc::Counting = mon::alloc::Counting;

const COMPLETE: bool = cfg!(feature = "check_complete_parse");
const HEXTEXT: bool = cfg!(feature = "implicit_hexstring");

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Ok(Value),
    /// parse error class
    Err(String),
    NonEmpty(Vec<u8>),
    Conv,
    Other(String),
    Panic,
}

fn left_bytes(l: &LeftoverState) -> Vec<u8> {
    match l {
        LeftoverState::Empty => vec![],
        LeftoverState::Windowless(b) => b.to_vec(),
        LeftoverState::Windowed(s) => s.spans().flatten().copied().collect(),
    }
}

fn de(e: &DecodeError) -> Res {
    match e {
        DecodeError::Conv(_) => Res::Conv,
        DecodeError::Parse(p) => Res::Err(errs::class(p)),
        DecodeError::NonEmpty(l) => Res::NonEmpty(left_bytes(l)),
        e => Res::Other(format!("{e:?}")),
    }
}

fn wrap<T: Ty>(r: Result<T, DecodeError>) -> Res {
    match r {
        Ok(x) => Res::Ok(x.to_value()),
        Err(e) => de(&e),
    }
}

/// sources that own or borrow plain bytes
const BYTE_SOURCES: [&str; 10] = [
    "byte<-Vec",
    "byte<-slice",
    "memo<-Vec",
    "memo<-slice",
    "slice<-slice",
    "slice<-SliceBuffer",
    "byte<-HexString",
    "memo<-HexString",
    "byte<-VecBuffer",
    "byte<-array",
];
const TEXT_SOURCES: [&str; 8] = ["byte<-&str", "byte<-String", "byte<-&String", "byte<-Cow", "memo<-&str", "memo<-String", "memo<-Cow(owned)", "byte<-Cow(owned)"];

struct Fns {
    name: String,
    schema: Schema,
    plain: fn(Kind, &[u8]) -> (Res, usize, Option<Vec<u8>>),
    from_bytes: fn(usize, &[u8]) -> Option<Res>,
    from_text: fn(usize, &str) -> Res,
    decode: fn(usize, &[u8]) -> Value,
    decode_text: fn(usize, &str) -> Value,
    hex_text: fn(&str) -> Res,
}

fn plain<T: Ty>(k: Kind, b: &[u8]) -> (Res, usize, Option<Vec<u8>>) {
    fn fin<T: Ty>(r: tedium::parse::ParseResult<T>) -> Res {
        match r {
            Ok(x) => Res::Ok(x.to_value()),
            Err(e) => Res::Err(errs::class(&e)),
        }
    }
    let (r, rem, cl) = match k {
        Kind::Byte => {
            let mut p = ByteParser::from_buffer(VecBuffer::from(b));
            let r = T::parse(&mut p);
            (fin(r), p.remainder(), p.cleanup())
        }
        Kind::Memo => {
            let mut p = MemoParser::from_buffer(VecBuffer::from(b));
            let r = T::parse(&mut p);
            (fin(r), p.remainder(), p.cleanup())
        }
        Kind::Slice => {
            let mut p = SliceParser::from_buffer(SliceBuffer::from(b));
            let r = T::parse(&mut p);
            (fin(r), p.remainder(), p.cleanup())
        }
    };
    (r, rem, cl.ok().map(|l| left_bytes(&l)))
}

fn from_bytes<T: Ty>(src: usize, b: &[u8]) -> Option<Res> {
    Some(wrap(match src {
        0 => T::try_decode::<_, ByteParser>(roomy(b, src)),
        1 => T::try_decode::<_, ByteParser>(b),
        2 => T::try_decode::<_, MemoParser>(roomy(b, src)),
        3 => T::try_decode::<_, MemoParser>(b),
        4 => T::try_decode::<_, SliceParser>(b),
        5 => T::try_decode::<_, SliceParser>(SliceBuffer::new(b)),
        6 => T::try_decode::<_, ByteParser>(HexString::from_vec(roomy(b, src))),
        7 => T::try_decode::<_, MemoParser>(HexString::from(roomy(b, src))),
        8 => T::try_decode::<_, ByteParser>(VecBuffer::from(roomy(b, src))),
        _ => match b.len() {
            0 => T::try_decode::<_, ByteParser>(<[u8; 0]>::try_from(b).unwrap()),
            1 => T::try_decode::<_, MemoParser>(<&[u8; 1]>::try_from(b).unwrap()),
            4 => T::try_decode::<_, ByteParser>(<[u8; 4]>::try_from(b).unwrap()),
            7 => T::try_decode::<_, ByteParser>(<&[u8; 7]>::try_from(b).unwrap()),
            10 => T::try_decode::<_, MemoParser>(<[u8; 10]>::try_from(b).unwrap()),
            _ => return None,
        },
    }))
}

fn from_text<T: Ty>(src: usize, s: &str) -> Res {
    wrap(match src {
        0 => T::try_decode::<_, ByteParser>(s),
        1 => T::try_decode::<_, ByteParser>(roomy_text(s, src)),
        2 => T::try_decode::<_, ByteParser>(&roomy_text(s, src)),
        3 => T::try_decode::<_, ByteParser>(Cow::Borrowed(s)),
        4 => T::try_decode::<_, MemoParser>(s),
        5 => T::try_decode::<_, MemoParser>(roomy_text(s, src)),
        6 => T::try_decode::<_, MemoParser>(Cow::<str>::Owned(roomy_text(s, src))),
        _ => T::try_decode::<_, ByteParser>(Cow::<str>::Owned(roomy_text(s, src))),
    })
}

fn decode<T: Ty>(src: usize, b: &[u8]) -> Value {
    match src {
        0 => T::decode(roomy(b, src)),
        1 => T::decode(b),
        2 => T::decode_memo(roomy(b, src)),
        3 => T::decode_memo(b),
        4 => T::decode(HexString::from_vec(roomy(b, src))),
        _ => T::decode_memo(VecBuffer::from(b)),
    }
    .to_value()
}
const NDECODE: usize = 6;
const DECODES: [&str; NDECODE] = ["decode<-Vec", "decode<-slice", "decode_memo<-Vec", "decode_memo<-slice", "decode<-HexString", "decode_memo<-VecBuffer"];

fn decode_text<T: Ty>(src: usize, s: &str) -> Value {
    match src {
        0 => T::decode(s),
        _ => T::decode_memo(roomy_text(s, src)),
    }
    .to_value()
}

fn hex_text<T: Ty>(s: &str) -> Res {
    match HexString::try_from(s) {
        Ok(h) => wrap(T::try_decode::<_, ByteParser>(h)),
        Err(_) => Res::Conv,
    }
}

fn fns<T: Ty>() -> Fns {
    Fns {
        name: name::<T>(),
        schema: T::schema(),
        plain: plain::<T>,
        from_bytes: from_bytes::<T>,
        from_text: from_text::<T>,
        decode: decode::<T>,
        decode_text: decode_text::<T>,
        hex_text: hex_text::<T>,
    }
}

fn table() -> Vec<Fns> {
    vec![
        fns::<()>(),
        fns::<bool>(),
        fns::<u8>(),
        fns::<i16>(),
        fns::<i64>(),
        fns::<u30>(),
        fns::<i31>(),
        fns::<RangedInt<u8, 5, 250>>(),
        fns::<FUnit>(),
        fns::<N>(),
        fns::<Z>(),
        fns::<String>(),
        fns::<Vec<u8>>(),
        fns::<Bytes>(),
        fns::<FixedBytes<4>>(),
        fns::<FixedString<4>>(),
        fns::<Option<u16>>(),
        fns::<Nullable<u8>>(),
        fns::<Padded<u8, 3>>(),
        fns::<Dynamic<u8, String>>(),
        fns::<Dynamic<u16, Sequence<u16>>>(),
        fns::<Dynamic<u30, Bytes>>(),
        fns::<Sequence<u16>>(),
        fns::<FixSeq<u8, 4>>(),
        fns::<LimSeq<u16, 3>>(),
        fns::<VPadded<Bytes, 0>>(),
        fns::<AutoBox<u32>>(),
        fns::<ESparse8>(),
        fns::<RVar>(),
        fns::<RUnit>(),
        fns::<RReserve>(),
        fns::<DMixed>(),
        fns::<Tree>(),
    ]
}

/// what the plain parse says the outcome has to be
fn expected(plain: &(Res, usize, Option<Vec<u8>>), b: &[u8]) -> Res {
    match &plain.0 {
        Res::Ok(_) if COMPLETE && plain.1 > 0 => Res::NonEmpty(b[b.len() - plain.1..].to_vec()),
        r => r.clone(),
    }
}

fn input(k: &Fns, r: &mut Rng) -> Vec<u8> {
    let size = r.range(0, 10);
    let (mut b, _) = model::gen_input(&k.schema, r, size);
    if r.chance(1, 3) {
        let n = r.below(4);
        b.extend(r.spicy_bytes(n));
    }
    if r.chance(1, 60) {
        let n = r.long(40);
        b.extend(r.spicy_bytes(n));
    }
    // a long tail, of a length at or near a power of two
    if r.chance(1, 80) {
        let n = r.large().min(140_000);
        let fill = r.u8();
        b.extend(std::iter::repeat(fill).take(n));
        if r.chance(1, 2) {
            let at = 1 << r.range(7, 16);
            // exactly so many after the first few bytes
            b.truncate(at + *r.pick(&[0usize, 1, 2, 4, 8, 3, 5]));
        }
    }
    if r.chance(1, 5) {
        b.truncate(*r.pick(&[0, 1, 4, 7, 10]));
    }
    b
}

fn as_hex(b: &[u8], r: &mut Rng) -> String {
    let style = r.below(3);
    hex(b)
        .chars()
        .map(|ch| match style {
            0 => ch,
            1 => ch.to_ascii_uppercase(),
            _ if r.chance(1, 2) => ch.to_ascii_uppercase(),
            _ => ch,
        })
        .collect()
}

/// text inputs: valid text of random bytes, hex text, near-hex text
fn text(k: &Fns, b: &[u8], r: &mut Rng) -> String {
    match r.below(8) {
        0 | 1 => as_hex(b, r),
        2 => {
            let mut s = as_hex(b, r);
            s.pop();
            s
        }
        3 => {
            let mut s: Vec<char> = as_hex(b, r).chars().collect();
            if !s.is_empty() {
                let i = r.below(s.len());
                s[i] = *r.pick(&['g', ' ', '+', '-', 'G', 'x', 'é', '\u{0}', '@', '`', '/', ':', '٣', 'Ａ', '_']);
            }
            s.into_iter().collect()
        }
        4 => format!("0x{}", as_hex(b, r)),
        5 => model::gen_text(r, 8),
        6 => {
            // an encoding of the type which happens to be ASCII
            let _ = &k.name;
            b.iter().map(|x| (x & 0x7f) as char).collect()
        }
        _ => String::from_utf8_lossy(b).into_owned(),
    }
}

fn is_hex(s: &str) -> bool {
    s.len() % 2 == 0 && s.bytes().all(|c| c.is_ascii_hexdigit())
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn guarded(c: &mut Ctx, f: impl FnOnce() -> Res) -> Res {
    match c.guard(f) {
        Ok(r) => r,
        Err(_) => Res::Panic,
    }
}

fn plain_of(c: &mut Ctx, k: &Fns, kind: Kind, b: &[u8]) -> Option<(Res, usize, Option<Vec<u8>>)> {
    match c.guard(|| (k.plain)(kind, b)) {
        Ok(x) => Some(x),
        Err(p) => {
            c.violation(format!("{}:plain-panic:{}", k.name, kind.name()), format!("{}: {}", hex(b), p.0));
            None
        }
    }
}

fn c25(c: &mut Ctx, k: &Fns, r: &mut Rng) {
    let b = input(k, r);
    let before = b.clone();
    let Some(pl) = plain_of(c, k, Kind::Byte, &b) else { return };
    let want = expected(&pl, &b);
    c.seen(format!("{}|{}", k.name, hex(&b)).as_bytes());
    c.sample(|| format!("{} {} => {:?}", k.name, hex(&b), want));
    c.count(if matches!(want, Res::Ok(_)) { "inputs decoded" } else { "inputs refused" }, 1);
    for (i, s) in BYTE_SOURCES.iter().enumerate() {
        let mut skipped = false;
        let got = guarded(c, || (k.from_bytes)(i, &b).unwrap_or(Res::Conv));
        if i == 9 && ![0usize, 1, 4, 7, 10].contains(&b.len()) {
            skipped = true;
        }
        if !skipped {
            c.count("fallible entry points compared", 1);
            if got != want {
                c.violation(format!("{}:{s}", k.name), format!("{}: plain parse gives {:?}, try_decode {:?}", hex(&b), want, got));
            }
        }
    }
    for (i, s) in DECODES.iter().enumerate() {
        let got = match c.guard(|| (k.decode)(i, &b)) {
            Ok(v) => Res::Ok(v),
            Err(_) => Res::Panic,
        };
        let w = match &want {
            Res::Ok(_) => want.clone(),
            _ => Res::Panic,
        };
        c.count("panicking entry points compared", 1);
        if got != w {
            c.violation(format!("{}:{s}", k.name), format!("{}: fallible outcome {:?}, panicking one {:?}", hex(&b), want, got));
        }
    }
    if b != before {
        c.violation(format!("{}:input-changed", k.name), format!("{} became {}", hex(&before), hex(&b)));
    }
    // hex text denoting these bytes
    let t = as_hex(&b, r);
    let got = guarded(c, || (k.hex_text)(&t));
    if got != want {
        c.violation(format!("{}:hex-text", k.name), format!("{t}: bytes give {:?}, hex text {:?}", want, got));
    }
    // text sources
    let t = text(k, &b, r);
    let is_unit = k.name == "()";
    let want = if HEXTEXT {
        if !is_hex(&t) {
            Res::Conv
        } else {
            let u = unhex(&t);
            let Some(pl) = plain_of(c, k, Kind::Byte, &u) else { return };
            expected(&pl, &u)
        }
    } else {
        let Some(pl) = plain_of(c, k, Kind::Byte, t.as_bytes()) else { return };
        expected(&pl, t.as_bytes())
    };
    if is_unit && want == Res::Conv {
        // the unit decode does not look at its input at all
        return;
    }
    for (i, s) in TEXT_SOURCES.iter().enumerate() {
        let got = guarded(c, || (k.from_text)(i, &t));
        c.count("text sources compared", 1);
        if got != want {
            c.violation(format!("{}:{s}", k.name), format!("{t:?}: expected {:?}, got {:?}", want, got));
        }
    }
    for i in 0..2 {
        let got = match c.guard(|| (k.decode_text)(i, &t)) {
            Ok(v) => Res::Ok(v),
            Err(_) => Res::Panic,
        };
        let w = if matches!(want, Res::Ok(_)) { want.clone() } else { Res::Panic };
        if got != w {
            c.violation(format!("{}:decode-text{i}", k.name), format!("{t:?}: fallible {:?}, panicking {:?}", want, got));
        }
    }
}

/// arrays of every kind of size, by value and by reference
fn arrays(c: &mut Ctx, r: &mut Rng) {
    fn each<T: Ty, const N: usize>(c: &mut Ctx, b: &[u8]) {
        let a: [u8; N] = b.try_into().unwrap();
        let Ok(pl) = c.guard(|| plain::<T>(Kind::Byte, b)) else { return };
        let want = expected(&pl, b);
        let got = [
            ("try_decode<-[u8; N]", guarded(c, || wrap(T::try_decode::<_, ByteParser>(a)))),
            ("try_decode<-&[u8; N]", guarded(c, || wrap(T::try_decode::<_, ByteParser>(&a)))),
            ("try_decode memo<-[u8; N]", guarded(c, || wrap(T::try_decode::<_, MemoParser>(a)))),
            ("try_decode memo<-&[u8; N]", guarded(c, || wrap(T::try_decode::<_, MemoParser>(&a)))),
            ("try_decode slice<-&[u8]", guarded(c, || wrap(T::try_decode::<_, SliceParser>(&a[..])))),
        ];
        c.count("arrays compared", got.len() as u64);
        for (how, g) in got {
            if g != want {
                c.violation(format!("array:{}:{how}", name::<T>()), format!("{N} bytes {}..: {:?} expected", hex(&b[..N.min(8)]), want));
            }
        }
        if let Res::Ok(_) = want {
            for (how, g) in [("decode", c.guard(|| T::decode(a).to_value())), ("decode&", c.guard(|| T::decode(&a).to_value())), ("decode_memo", c.guard(|| T::decode_memo(a).to_value()))] {
                c.check(matches!(&g, Ok(v) if Res::Ok(v.clone()) == want), || format!("array:{}:{how}", name::<T>()), || format!("{N} bytes"));
            }
        }
    }
    macro_rules! sizes {
        ($($n:literal)*) => {$({
            let mut b = r.spicy_bytes($n);
            each::<Vec<u8>, $n>(c, &b);
            each::<Sequence<u16>, $n>(c, &b);
            if $n >= 2 {
                b[0] = (($n - 2usize.min($n)) >> 8) as u8;
                b[1] = ($n - 2usize.min($n)) as u8;
            }
            each::<Dynamic<u16, Bytes>, $n>(c, &b);
        })*};
    }
    sizes!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 20 24 31 32 33 34 48 63 64 65 66 96 127 128 129 200 255 256 257 300 511 512 513 1000 1024 1025 4096 5000 8200);
    let n = r.u64();
    c.seen(&n.to_le_bytes());
}

/// complete-parse checking
fn c15(c: &mut Ctx, k: &Fns, r: &mut Rng) {
    let b = input(k, r);
    for (kind, srcs) in [(Kind::Byte, [0usize, 1]), (Kind::Memo, [2, 3]), (Kind::Slice, [4, 5])] {
        let Some(pl) = plain_of(c, k, kind, &b) else { return };
        let want = expected(&pl, &b);
        if kind == Kind::Byte {
            c.seen(format!("{}|{}", k.name, hex(&b)).as_bytes());
            c.sample(|| format!("{} {} => {:?}, {} unread", k.name, hex(&b), pl.0, pl.1));
        }
        match &want {
            Res::Ok(_) => c.count("complete decodes", 1),
            Res::NonEmpty(_) => c.count("incomplete decodes", 1),
            _ => c.count("failed decodes", 1),
        }
        if let Some(l) = &pl.2 {
            // leftover of the plain parser itself (all open windows included)
            let ok = b.ends_with(l) || !matches!(pl.0, Res::Ok(_));
            if !ok || (matches!(pl.0, Res::Ok(_)) && l.len() != pl.1) {
                c.violation(format!("{}:leftover:{}", k.name, kind.name()), format!("{}: {} unread, cleanup returned {}", hex(&b), pl.1, hex(l)));
            }
        } else {
            c.violation(format!("{}:cleanup-failed:{}", k.name, kind.name()), hex(&b));
        }
        for s in srcs {
            let got = guarded(c, || (k.from_bytes)(s, &b).unwrap());
            if got != want {
                c.violation(
                    format!("{}:complete:{}", k.name, BYTE_SOURCES[s]),
                    format!("{}: plain parse {:?} leaving {} bytes, try_decode {:?}", hex(&b), pl.0, pl.1, got),
                );
            }
        }
    }
}

fn main() {
    let mut c = Ctx::from_args("C25");
    let prop = c.prop.clone();
    let n = c.n(3000, 40_000);
    let t = table();
    for k in &t {
        let st = k.name.clone();
        match prop.as_str() {
            "C25" | "C19" => c.cases(&st, n, |c, r| c25(c, k, r)),
            "C15" => c.cases(&st, n, |c, r| c15(c, k, r)),
            p => panic!("entry does not decide {p}"),
        }
    }
    if prop == "C25" || prop == "C19" {
        c.cases("arrays", (n / 20).max(4), arrays);
    }
    let _ = AnyP::new(Kind::Byte, &[]);
    c.count("types", t.len() as u64);
    c.finish()
}
