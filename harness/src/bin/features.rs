//! C19: optional features never change encodings or accepted inputs.
//!
//! The same workload runs in builds with different features and logs every
//! observation (bytes, lengths, outcomes, values, errors); the runner compares
//! the logs case by case. Where an opt-in check is documented to reject an
//! input, the reference model names exactly those inputs: there the log holds
//! only that fact, and the build with the check on must reject them, with the
//! documented error.
use mon::errs;
use mon::hist::{self, gen_buf, gen_op, Bias, Model};
use mon::model::{self, Cursor, RefCfg, Rej};
use mon::ops::{universe, AnyP, AnyT, Kind, TyOps, KINDS, NTARGETS};
use mon::prng::Rng;
use mon::rep::{clip, hex, Ctx};
use mon::ty::Ty;
use mon::universe::*;
use std::convert::TryFrom;
use std::fmt::Write as _;
use tedium::conv::error::DecodeError;
use tedium::seq::{fix::FixSeq, lim::LimSeq};
use tedium::*;

#[global_allocator]
static A: mon::alloc::Counting = mon::alloc::Counting;

const CHECK_PADDING: bool = cfg!(feature = "check_padding");
const COMPLETE: bool = cfg!(feature = "check_complete_parse");
const HEXTEXT: bool = cfg!(feature = "implicit_hexstring");
const RANGES: bool = cfg!(feature = "invalid_range_checking");

// ------------------------------------------------------------------ encodings
fn encodings(c: &mut Ctx, k: &TyOps, r: &mut Rng) {
    let size = r.range(0, 24);
    let v = model::gen(&k.schema, r, size);
    let lead = r.below(3);
    let lead = r.spicy_bytes(lead);
    let g = c.guard(|| {
        let x = (k.make)(&v);
        let mut o = String::new();
        let _ = write!(o, "value {:?}; bytes {}; encode {}; ", x.value(), hex(&x.to_bytes()), hex(&x.encode_vec()));
        let mut w = lead.clone();
        x.write_to_vec(&mut w);
        let _ = write!(o, "appended {}; full {}; ", hex(&w), hex(&x.to_bytes_full()));
        let _ = write!(o, "enc_len {} estimate {} known {:?}; ", x.enc_len(), x.estimate(), k.known);
        if k.known.is_none() {
            let _ = write!(o, "unknown {}; ", x.unknown());
        }
        for i in 0..NTARGETS {
            let mut t = AnyT::make(i);
            let n = x.write(&mut t);
            let _ = write!(o, "target{i} {n} {:?}; ", t.content().map(|b| hex(&b)));
        }
        for w in 0..3 {
            match x.prefix(w) {
                Ok(n) => {
                    let _ = write!(o, "prefix{w} {n} {}; ", hex(&x.encode_prefixed(w)));
                }
                Err(e) => {
                    let _ = write!(o, "prefix{w} refused {e}; ");
                }
            }
        }
        o
    });
    c.seen(format!("{}{:?}", k.name, v).as_bytes());
    c.count("values encoded", 1);
    match g {
        Ok(o) => {
            c.sample(|| format!("{} {}", k.name, o));
            c.observe(o)
        }
        Err(p) => c.observe(format!("{:?} panics: {}", v, msg(&p.0))),
    }
}

/// a panic message without its location
fn msg(p: &str) -> String {
    p.split(" @ ").next().unwrap_or("").to_string()
}

// ------------------------------------------------------------------ decodings
fn padding_rejects(k: &TyOps, b: &[u8], plain: &Result<model::Value, Rej>) -> Option<Vec<u8>> {
    let mut cur = Cursor::new(b);
    cur.cfg = RefCfg { check_padding: true };
    match model::decode(&k.schema, &mut cur) {
        Err(Rej::Padding(p)) if plain != &Err(Rej::Padding(p.clone())) => Some(p),
        _ => None,
    }
}

fn decodings(c: &mut Ctx, k: &TyOps, r: &mut Rng) {
    let size = r.range(0, 24);
    let (mut b, how) = model::gen_input(&k.schema, r, size);
    if r.chance(1, 100) {
        // a great many bytes left over, near a power of two of them
        let mut cur = Cursor::new(&b);
        if model::decode(&k.schema, &mut cur).is_ok() {
            b.truncate(cur.pos);
            let n = if r.chance(1, 2) { 1 << r.range(8, 17) } else { r.large().min(140_000) };
            b.extend(std::iter::repeat(r.u8()).take(n));
        }
    }
    let mut cur = Cursor::new(&b);
    let plain = model::decode(&k.schema, &mut cur);
    let used = cur.pos;
    if plain == Err(Rej::NoProgress) {
        return;
    }
    c.seen(format!("{}{}", k.name, hex(&b)).as_bytes());
    c.count(&format!("inputs:{how}"), 1);
    let pad = padding_rejects(k, &b, &plain);
    for kind in KINDS {
        let g = c.guard(|| {
            let mut p = AnyP::new(kind, &b);
            let y = (k.parse)(&mut p);
            let rem = p.remainder();
            match y {
                Ok(y) => (Ok((y.value(), hex(&y.to_bytes()))), rem),
                Err(e) => (Err((errs::class(&e), e.to_string())), rem),
            }
        });
        if let Some(pad) = &pad {
            // the one documented difference of `check_padding`
            c.observe("non-zero padding");
            if CHECK_PADDING {
                let want = format!("token/padding:{}", hex(pad));
                c.count("non-zero paddings presented to the check", 1);
                match g {
                    Ok((Err((class, _)), _)) if class == want => {}
                    o => c.violation(
                        format!("{}:check_padding:{}", k.name, kind.name()),
                        format!("{}: padding bytes {} are not zero, got {:?}", hex(&b), hex(pad), o.map_err(|p| p.0)),
                    ),
                }
            }
            continue;
        }
        match g {
            Ok((Ok((v, re)), rem)) => {
                c.count("decoded to a value", 1);
                c.observe(format!("{} {} -> {:?} re-encoded {} left {}", kind.name(), hex(&b), v, re, rem))
            }
            Ok((Err((class, text)), rem)) => {
                c.count("refused", 1);
                c.observe(format!("{} {} -> {} {} left {}", kind.name(), hex(&b), class, text, rem))
            }
            Err(p) => c.observe(format!("{} {} panics: {}", kind.name(), hex(&b), msg(&p.0))),
        }
    }
    // the entry point, where `check_complete_parse` adds its rejections
    let bb = b.clone();
    let g = c.guard(move || match (k.try_decode)(bb) {
        Ok(y) => Ok(y.value()),
        Err(e) => Err((matches!(e, DecodeError::NonEmpty(_)), matches!(e, DecodeError::Parse(_)), e.to_string())),
    });
    if pad.is_some() {
        return;
    }
    if plain.is_ok() && used < b.len() {
        c.observe("leftover bytes");
        if COMPLETE {
            c.count("incomplete parses presented to the check", 1);
            match g {
                Ok(Err((true, _, _))) => {}
                o => c.violation(
                    format!("{}:check_complete_parse", k.name),
                    format!("{}: {} of {} bytes denote a value, got {:?}", hex(&b), used, b.len(), o.map_err(|p| p.0)),
                ),
            }
        } else {
            match g {
                Ok(Ok(v)) if Some(&v) == plain.as_ref().ok() => {}
                o => c.violation(format!("{}:leftover", k.name), format!("{}: plain parse succeeds, try_decode gave {:?}", hex(&b), o.map_err(|p| p.0))),
            }
        }
        return;
    }
    match g {
        Ok(o) => c.observe(format!("try_decode {:?}", o)),
        Err(p) => c.observe(format!("try_decode panics: {}", msg(&p.0))),
    }
}

// --------------------------------------------------------------- text sources
fn is_hex(t: &str) -> bool {
    t.len() % 2 == 0 && t.bytes().all(|b| b.is_ascii_hexdigit())
}

fn outcome<T: Ty>(x: Result<T, DecodeError>) -> String {
    match x {
        Ok(x) => format!("{:?}", x.to_value()),
        Err(DecodeError::Conv(_)) => "not hex".into(),
        Err(DecodeError::NonEmpty(l)) => format!("leftover {}", l.len()),
        Err(e) => format!("{e}"),
    }
}

fn texts<T: Ty + 'static>(c: &mut Ctx, r: &mut Rng) {
    let size = r.range(0, 12);
    let (b, _) = model::gen_input(&T::schema(), r, size);
    let mut t: String = b.iter().map(|x| if r.chance(1, 4) { format!("{x:02X}") } else { format!("{x:02x}") }).collect();
    if r.chance(1, 2) {
        match r.below(5) {
            0 => {
                t.pop();
            }
            1 => t.push(*r.pick(&['g', ' ', 'é', '\0', ':', '@', '`', '/'])),
            2 => t.insert_str(0, "0x"),
            3 => {
                let at = r.below(t.len() + 1);
                t.insert(at, *r.pick(&['x', 'Z', '-', '\u{ff10}']));
            }
            _ => t = format!(" {t}"),
        }
    }
    c.seen(format!("text{}{t}", mon::ty::name::<T>()).as_bytes());
    // documented: text is its bytes, or with the feature the bytes its hex denotes
    let denoted: Option<Vec<u8>> = if HEXTEXT {
        if is_hex(&t) {
            Some((0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect())
        } else {
            None
        }
    } else {
        Some(t.as_bytes().to_vec())
    };
    let g = c.guard(|| {
        let want = match &denoted {
            Some(b) => outcome(T::try_decode::<_, ByteParser>(b.clone())),
            None => "not hex".to_string(),
        };
        let got = [outcome(T::try_decode::<_, ByteParser>(t.as_str())), outcome(T::try_decode::<_, ByteParser>(t.clone())), outcome(T::try_decode::<_, MemoParser>(&t))];
        (want, got)
    });
    c.count(if is_hex(&t) { "hex texts decoded" } else { "other texts decoded" }, 1);
    match g {
        Ok((want, got)) => {
            for g in got {
                if g != want {
                    c.violation(format!("text:{}", mon::ty::name::<T>()), format!("{t:?}: got {g}, the bytes it denotes give {want}"));
                }
            }
        }
        Err(p) => c.violation(format!("text-panic:{}", mon::ty::name::<T>()), format!("{t:?}: {}", p.0)),
    }
}

// ------------------------------------------------------------------ sequences
macro_rules! seq_history {
    ($c:ident, $r:ident, $S:ident, $t:ty, $n:expr, $mk:expr) => {{
        const NN: usize = $n;
        type S = $S<$t, NN>;
        let mk: fn(u16) -> $t = $mk;
        let give = |r: &mut Rng, have: usize| -> Vec<$t> {
            let room = NN.saturating_sub(have);
            let k = match r.below(5) {
                0 => room,
                1 => room + 1,
                2 => 0,
                3 => room * 2 + 2,
                _ => r.range(0, room + 1),
            };
            (0..k).map(|_| mk(r.u64() as u16)).collect()
        };
        let show = |s: &S| -> String {
            let mut o = format!("len {} empty {} [", s.len(), s.is_empty());
            for x in s.iter() {
                let _ = write!(o, "{:?},", x);
            }
            let _ = write!(o, "] last {:?} out {:?}", s.last(), s.clone().into_iter().map(|x| format!("{x:?}")).collect::<Vec<_>>());
            o
        };
        let a = give($r, 0);
        let way = $r.below(5);
        let g = $c.guard(|| -> Result<S, String> {
            match way {
                0 => Ok(a.iter().cloned().collect::<S>()),
                1 => S::try_from(a.as_slice()).map_err(|e| e.to_string()),
                2 => S::try_from(a.clone()).map_err(|e| e.to_string()),
                3 => {
                    let b: Vec<u8> = a.iter().flat_map(|x| Encode::to_bytes(x)).collect();
                    let mut p = AnyP::new(Kind::Byte, &b);
                    S::parse(&mut p).map_err(|e| e.to_string())
                }
                _ => Ok(S::default()),
            }
        });
        $c.count("sequences built", 1);
        $c.seen(format!("seq{}{}{}{:?}", stringify!($S), NN, way, a).as_bytes());
        let mut s = match g {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => return $c.observe(format!("{} of {}: {e}", way, a.len())),
            Err(p) => return $c.observe(format!("{} of {} panics: {}", way, a.len(), msg(&p.0))),
        };
        $c.observe(format!("{} of {}: {}", way, a.len(), show(&s)));
        for _ in 0..$r.range(0, 3) {
            let e = give($r, s.len());
            let k = e.len();
            let g = $c.guard(|| s.extend(e));
            $c.observe(format!("extend by {k}: {} then {}", if g.is_ok() { "ok" } else { "panics" }, show(&s)));
            if let Some(x) = s.first_mut() {
                *x = mk($r.u64() as u16);
            }
            s.reverse();
            let t: Result<S, _> = $c.guard(|| s.iter().cloned().collect::<S>());
            if let Ok(t) = t {
                $c.observe(format!("equal {} order {:?}", t == s, t.partial_cmp(&s)));
            }
        }
        let g = $c.guard(|| (hex(&Encode::to_bytes(&s)), Estimable::estimate(&s), tedium::conv::EncodeLength::enc_len(&s), <S as Estimable>::KNOWN));
        match g {
            Ok(g) => $c.observe(format!("encoded {:?}", g)),
            Err(p) => $c.observe(format!("encoding panics: {}", msg(&p.0))),
        }
        let back: Vec<$t> = s.into();
        $c.observe(format!("vec {:?}", back));
    }};
}

fn sequences(c: &mut Ctx, r: &mut Rng) {
    let text = |i: u16| -> Dynamic<u8, String> { Dynamic::new("abcdefg"[..(i % 7) as usize].to_string()) };
    match r.below(12) {
        0 => seq_history!(c, r, LimSeq, u8, 0, |i| i as u8),
        1 => seq_history!(c, r, LimSeq, u8, 1, |i| i as u8),
        2 => seq_history!(c, r, LimSeq, u16, 5, |i| i),
        3 => seq_history!(c, r, LimSeq, Dynamic<u8, String>, 4, text),
        4 => seq_history!(c, r, LimSeq, u8, 33, |i| i as u8),
        5 => seq_history!(c, r, FixSeq, u8, 0, |i| i as u8),
        6 => seq_history!(c, r, FixSeq, u8, 1, |i| i as u8),
        7 => seq_history!(c, r, FixSeq, u16, 5, |i| i),
        8 => seq_history!(c, r, FixSeq, Dynamic<u8, String>, 4, text),
        9 => seq_history!(c, r, FixSeq, u8, 33, |i| i as u8),
        10 => seq_history!(c, r, LimSeq, Option<i16>, 3, |i| if i & 1 == 0 { None } else { Some(i as i16) }),
        _ => seq_history!(c, r, FixSeq, Option<i16>, 3, |i| if i & 1 == 0 { None } else { Some(i as i16) }),
    }
}

// ------------------------------------------------------------- parser histories
fn histories(c: &mut Ctx, r: &mut Rng) {
    let buf = gen_buf(r);
    let n = r.range(1, 30);
    let mut m = Model::new(&buf);
    let mut ops = vec![];
    for _ in 0..n {
        let bias = if r.chance(1, 2) { Bias::Windows } else { Bias::Even };
        let op = gen_op(&m, r, bias);
        m.apply(&op);
        ops.push(op);
    }
    c.seen(format!("{}{}", hex(&buf), hist::show(&ops)).as_bytes());
    for kind in KINDS {
        let g = c.guard(|| {
            let mut p = AnyP::new(kind, &buf);
            let mut o = String::new();
            for op in &ops {
                let _ = match hist::try_apply(&mut p, op) {
                    Ok(x) => write!(o, "{:?}/{}; ", x, p.remainder()),
                    Err(e) => write!(o, "{}/{}; ", e, p.remainder()),
                };
            }
            match p.cleanup() {
                Ok(l) => {
                    let _ = write!(o, "leftover {} {}", l.len(), l.is_empty());
                }
                Err(e) => {
                    let _ = write!(o, "cleanup {e}");
                }
            }
            o
        });
        c.count("operations performed", ops.len() as u64);
        match g {
            Ok(o) => c.observe(format!("{} {} {}", kind.name(), hex(&buf), o)),
            Err(p) => c.observe(format!("{} {} panics: {}", kind.name(), hex(&buf), msg(&p.0))),
        }
    }
}

// --------------------------------------------------------------- ranged numbers
macro_rules! ranged {
    ($c:ident, $r:ident, $i:ty, $lo:expr, $hi:expr) => {{
        type R = RangedInt<$i, { $lo }, { $hi }>;
        const VALID: bool = $lo <= $hi && $lo >= -0x4000_0000 && $hi <= 0x3fff_ffff;
        let x: i32 = match $r.below(6) {
            0 => $lo,
            1 => $hi,
            2 => ($lo as i32).wrapping_sub(1),
            3 => ($hi as i32).wrapping_add(1),
            4 => $r.u64() as i32,
            _ => ($lo as i64 + ($r.u64() % (($hi as i64 - $lo as i64).unsigned_abs() + 1)) as i64) as i32,
        };
        let u = x.wrapping_sub(if $lo > 0 { $lo } else { 0 }) as $i;
        $c.seen(format!("{}{}", std::any::type_name::<R>(), x).as_bytes());
        let g = [
            ("try_from_i32", $c.guard(|| format!("{:?}", R::try_from_i32(x).map(|r| (r.to_i32(), hex(&Encode::to_bytes(&r)))).map_err(|e| e.to_string())))),
            ("try_from_underlying", $c.guard(|| format!("{:?}", R::try_from_underlying(u).map(|r| (r.to_i32(), r.to_underlying())).map_err(|e| e.to_string())))),
            ("parse", $c.guard(|| {
                let b = Encode::to_bytes(&u);
                let mut p = AnyP::new(Kind::Slice, &b);
                format!("{:?}", R::parse(&mut p).map(|r| r.to_i32()).map_err(|e| e.to_string()))
            })),
        ];
        for (what, g) in g {
            if VALID {
                match g {
                    Ok(o) => $c.observe(format!("{what} {x}: {o}")),
                    Err(p) => $c.observe(format!("{what} {x} panics: {}", msg(&p.0))),
                }
            } else if RANGES {
                $c.count("invalid type-level ranges presented to the check", 1);
                // rejected before anything is constructed
                if let Ok(o) = g {
                    $c.violation(format!("invalid_range_checking:{}:{what}", stringify!($i)), format!("RangedInt<{}, {}, {}> of {x} ({u}): {o}", stringify!($i), $lo, $hi));
                }
            }
        }
    }};
}

fn ranges(c: &mut Ctx, r: &mut Rng) {
    match r.below(16) {
        0 => ranged!(c, r, u8, 0, 255),
        1 => ranged!(c, r, u8, 1, 1),
        2 => ranged!(c, r, i8, -128, 127),
        3 => ranged!(c, r, u16, 1000, 66000),
        4 => ranged!(c, r, i32, -0x4000_0000, 0x3fff_ffff),
        5 => ranged!(c, r, u32, 0, 0x3fff_ffff),
        6 => ranged!(c, r, i16, -7, -7),
        7 => ranged!(c, r, u8, 0, 0),
        8 => ranged!(c, r, i32, -0x4000_0000, -0x4000_0000),
        9 => ranged!(c, r, u32, 0x3fff_ffff, 0x3fff_ffff),
        // not valid: reversed, or beyond the 31-bit range
        10 => ranged!(c, r, u8, 5, 1),
        11 => ranged!(c, r, i16, 1, -1),
        12 => ranged!(c, r, i32, -0x4000_0001, 0),
        13 => ranged!(c, r, u32, 0, 0x4000_0000),
        14 => ranged!(c, r, i32, i32::MIN, i32::MAX),
        _ => ranged!(c, r, i32, 0x3fff_ffff, 0x4000_0000),
    }
}

// --------------------------------------------------------------- serialisation
#[cfg(feature = "serde_probe")]
mod ser {
    use serde::ser::{Error, Impossible, Serializer};
    use std::fmt;

    /// accepts bytes only, and returns them
    pub struct Sink;
    #[derive(Debug)]
    pub struct E(pub String);
    impl fmt::Display for E {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for E {}
    impl Error for E {
        fn custom<T: fmt::Display>(t: T) -> Self {
            E(t.to_string())
        }
    }
    macro_rules! no {
        ($($f:ident($($t:ty),*);)*) => {$( fn $f(self, $(_: $t),*) -> Result<Vec<u8>, E> { Err(E(stringify!($f).into())) } )*};
    }
    impl Serializer for Sink {
        type Ok = Vec<u8>;
        type Error = E;
        type SerializeSeq = Impossible<Vec<u8>, E>;
        type SerializeTuple = Impossible<Vec<u8>, E>;
        type SerializeTupleStruct = Impossible<Vec<u8>, E>;
        type SerializeTupleVariant = Impossible<Vec<u8>, E>;
        type SerializeMap = Impossible<Vec<u8>, E>;
        type SerializeStruct = Impossible<Vec<u8>, E>;
        type SerializeStructVariant = Impossible<Vec<u8>, E>;
        fn serialize_bytes(self, v: &[u8]) -> Result<Vec<u8>, E> {
            Ok(v.to_vec())
        }
        no! {
            serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
            serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
            serialize_char(char); serialize_str(&str); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
            serialize_unit_variant(&'static str, u32, &'static str);
        }
        fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<Vec<u8>, E> {
            Err(E("some".into()))
        }
        fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, v: &T) -> Result<Vec<u8>, E> {
            v.serialize(self)
        }
        fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Vec<u8>, E> {
            Err(E("newtype_variant".into()))
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
            Err(E("seq".into()))
        }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
            Err(E("tuple".into()))
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
            Err(E("tuple_struct".into()))
        }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
            Err(E("tuple_variant".into()))
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
            Err(E("map".into()))
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
            Err(E("struct".into()))
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
            Err(E("struct_variant".into()))
        }
    }
}

#[cfg(feature = "serde_probe")]
fn serialised(c: &mut Ctx, r: &mut Rng) {
    use serde::Serialize;
    let n = r.size(40);
    let b = r.spicy_bytes(n);
    let arr = {
        let mut a = [0u8; 20];
        for x in a.iter_mut() {
            *x = r.u64() as u8;
        }
        a
    };
    c.count("values serialised", 3);
    c.seen(&b);
    let g = c.guard(|| (Bytes::from(b.clone()).serialize(ser::Sink), FixedBytes::<20>::from_array(arr).serialize(ser::Sink), FixedBytes::<0>::from_array([]).serialize(ser::Sink)));
    match g {
        Ok((Ok(x), Ok(y), Ok(z))) => {
            if x != b || y != arr || !z.is_empty() {
                c.violation("serialised:content", format!("{} / {} serialise as {} / {} / {}", hex(&b), hex(&arr), hex(&x), hex(&y), hex(&z)));
            }
        }
        Ok(o) => c.violation("serialised:kind", format!("expected bytes, got {o:?}")),
        Err(p) => c.violation("serialised:panic", p.0),
    }
}

fn main() {
    let mut c = Ctx::from_args("C19");
    let types = universe();
    let n_enc = c.n(400, 6000);
    let n_dec = c.n(700, 12_000);
    for k in &types {
        c.cases(&format!("encode/{}", k.name), n_enc, |c, r| encodings(c, k, r));
        c.cases(&format!("decode/{}", k.name), n_dec, |c, r| decodings(c, k, r));
    }
    let n = c.n(40_000, 600_000);
    c.cases("sequences", n, sequences);
    let n = c.n(8000, 80_000);
    c.cases("histories", n, histories);
    let n = c.n(30_000, 300_000);
    c.cases("ranges", n, ranges);
    let n = c.n(1500, 40_000);
    macro_rules! t {
        ($($t:ty),+) => {$( c.cases(&format!("text/{}", mon::ty::name::<$t>()), n, texts::<$t>); )+};
    }
    // the unit type's own entry point ignores its input
    t!(u8, i32, Option<u16>, Dynamic<u8, String>, Sequence<u16>, RVar, String, FixedBytes<4>, DMixed);
    #[cfg(feature = "serde_probe")]
    {
        let n = c.n(4000, 100_000);
        c.cases("serialised", n, serialised);
    }
    let _ = clip;
    c.finish()
}
