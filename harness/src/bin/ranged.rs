//! C12: ranged numbers hold only in-range values and preserve the value.
use mon::prng::Rng;
use mon::rep::{guard, hex, Ctx, Panicked};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use tedium::conv::len::FixedLength;
use tedium::error::BoundsError;
use tedium::*;

#[global_allocator]
static A: mon::alloc::Counting = mon::alloc::Counting;

fn h64<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn lbl<T>(c: &Ctx, f: impl FnOnce() -> T) -> Result<T, Panicked> {
    guard(c.label(), f)
}

/// the numbers a bounds error names must be those of the failure; offsets from
/// the minimum are accepted where the type stores offsets
fn bounds_ok(e: &BoundsError<i128>, min: i128, max: i128, v: i128) -> bool {
    let off = |m: i128, x: i128| (m, x) == (max, v) || (min > 0 && (m, x) == (max - min, v - min));
    match e {
        BoundsError::Underflow { min: m, val } => v < min && ((*m, *val) == (min, v) || (min > 0 && (*m, *val) == (min, v - min))),
        BoundsError::IllegalNegative { min: m, val } => min > 0 && *val < 0 && v < min && *m == min && (*val == v || *val == v - min),
        BoundsError::Overflow { max: m, val } => v > max && off(*m, *val),
        BoundsError::InvalidBounds { .. } => false,
        BoundsError::Failed(_) => false,
    }
}

fn widen(e: BoundsError<i64>) -> BoundsError<i128> {
    match e {
        BoundsError::Underflow { min, val } => BoundsError::Underflow { min: min as i128, val: val as i128 },
        BoundsError::Overflow { max, val } => BoundsError::Overflow { max: max as i128, val: val as i128 },
        BoundsError::InvalidBounds { min, max } => BoundsError::InvalidBounds { min: min as i128, max: max as i128 },
        BoundsError::IllegalNegative { min, val } => BoundsError::IllegalNegative { min: min as i128, val: val as i128 },
        BoundsError::Failed(x) => BoundsError::Failed(x),
    }
}

macro_rules! into_exact {
    // From conversions: the exact value, or a panic where it does not fit
    ($c:ident, $tn:expr, $x:expr, $n:expr, $($d:ty),*) => {$(
        {
            let fits = <$d>::try_from($n).ok();
            match lbl($c, || <$d>::from($x)) {
                Ok(y) => $c.check(Some(y) == fits, || format!("{}:From->{}", $tn, stringify!($d)), || format!("{} became {}", $n, y)),
                Err(p) => $c.check(fits.is_none(), || format!("{}:From->{}:panic", $tn, stringify!($d)), || format!("{}: {}", $n, p.0)),
            }
        }
    )*};
}
macro_rules! try_into_exact {
    ($c:ident, $tn:expr, $x:expr, $n:expr, $($d:ty),*) => {$(
        {
            let fits = <$d>::try_from($n).ok();
            match lbl($c, || <$d>::try_from($x)) {
                Ok(y) => $c.check(y.ok() == fits, || format!("{}:TryFrom->{}", $tn, stringify!($d)), || format!("{} became {:?}", $n, y)),
                Err(p) => $c.violation(format!("{}:TryFrom->{}:panic", $tn, stringify!($d)), format!("{}: {}", $n, p.0)),
            }
        }
    )*};
}
macro_rules! dests {
    (u8, $c:ident, $tn:expr, $x:expr, $n:expr) => { into_exact!($c, $tn, $x, $n, u8, u16, i16, u32, i32, u64, i64, usize, isize); try_into_exact!($c, $tn, $x, $n, i8) };
    (i8, $c:ident, $tn:expr, $x:expr, $n:expr) => { into_exact!($c, $tn, $x, $n, i8, i16, i32, i64, isize); try_into_exact!($c, $tn, $x, $n, u8, u16, u32, u64, usize) };
    (i16, $c:ident, $tn:expr, $x:expr, $n:expr) => { into_exact!($c, $tn, $x, $n, i16, i32, i64, isize); try_into_exact!($c, $tn, $x, $n, i8, u8, u16, u32, u64, usize) };
    (u16, $c:ident, $tn:expr, $x:expr, $n:expr) => { into_exact!($c, $tn, $x, $n, u32, i32, u64, i64, usize, isize); try_into_exact!($c, $tn, $x, $n, i8, u8, i16) };
    (i32, $c:ident, $tn:expr, $x:expr, $n:expr) => { into_exact!($c, $tn, $x, $n, i32, i64, isize); try_into_exact!($c, $tn, $x, $n, i8, u8, i16, u16, u32, u64, usize) };
    (u32, $c:ident, $tn:expr, $x:expr, $n:expr) => { into_exact!($c, $tn, $x, $n, u32, i32, u64, i64, usize, isize); try_into_exact!($c, $tn, $x, $n, i8, u8, i16, u16) };
}

macro_rules! from_num {
    ($c:ident, $tn:expr, $rt:ty, $n:expr, $inr:expr, $min:expr, $max:expr, $($s:ty),*) => {$(
        if let Ok(s) = <$s>::try_from($n) {
            $c.count("constructions observed", 1);
            match lbl($c, || <$rt>::try_from(s)) {
                Ok(Ok(x)) => $c.check($inr && x.to_i32() as i128 == $n, || format!("{}:TryFrom<{}>:{}", $tn, stringify!($s), if $inr { "value" } else { "accepted" }), || format!("{} -> {}", $n, x.to_i32())),
                Ok(Err(e)) => {
                    $c.check(!$inr, || format!("{}:TryFrom<{}>:refused", $tn, stringify!($s)), || format!("{}: {:?}", $n, e));
                    if !$inr {
                        $c.check(bounds_ok(&e, $min, $max, $n), || format!("{}:TryFrom<{}>:error", $tn, stringify!($s)), || format!("{}: {:?}", $n, e));
                    }
                }
                Err(p) => $c.violation(format!("{}:TryFrom<{}>:panic", $tn, stringify!($s)), format!("{}: {}", $n, p.0)),
            }
        }
    )*};
}

/// one number against one ranged type
type OneFn = fn(&mut Ctx, i128);
struct RT {
    name: &'static str,
    min: i128,
    max: i128,
    bmin: i128,
    bmax: i128,
    one: OneFn,
    raw: OneFn,
    consts: fn(&mut Ctx),
    pair: fn(&mut Ctx, i32, i32),
}

macro_rules! rt {
    ($b:tt, $min:expr, $max:expr) => {{
        type R = RangedInt<$b, { $min }, { $max }>;
        const NAME: &str = concat!("RangedInt<", stringify!($b), ",", stringify!($min), ",", stringify!($max), ">");
        const MINI: i128 = $min as i128;
        const MAXI: i128 = $max as i128;
        const W: usize = std::mem::size_of::<$b>();
        fn valid(c: &mut Ctx, x: R, n: i128, how: &str) {
            c.count("valid numbers observed", 1);
            let stored = if MINI > 0 { n - MINI } else { n };
            let out = lbl(c, || {
                (x.to_i32() as i128, Into::<i64>::into(x.to_underlying()) as i128, unsafe { Into::<i64>::into(x.to_underlying_unchecked()) as i128 }, x.to_bytes(), { let y = x; y == x })
            });
            match out {
                Ok((i, u, uu, b, same)) => {
                    c.check(i == n, || format!("{NAME}:to_i32"), || format!("{n} ({how}) reads back {i}"));
                    c.check(u == stored && uu == stored, || format!("{NAME}:to_underlying"), || format!("{n} ({how}) stored as {u}/{uu}, expected {stored}"));
                    let want = &stored.to_be_bytes()[16 - W..];
                    c.check(b == want, || format!("{NAME}:encoding"), || format!("{n} ({how}) encodes as {}, expected {}", hex(&b), hex(want)));
                    c.check(same, || format!("{NAME}:eq"), || format!("{n}"));
                    let d = lbl(c, || R::try_decode::<_, ByteParser>(b.clone()).map(|y| (y == x, y.to_i32(), h64(&y) == h64(&x))).map_err(|e| e.to_string()));
                    c.check(matches!(&d, Ok(Ok((true, k, true))) if *k as i128 == n), || format!("{NAME}:redecode"), || format!("{n} ({how}): {d:?}"));
                }
                Err(p) => c.violation(format!("{NAME}:access-panic"), format!("{n} ({how}): {}", p.0)),
            }
            dests!($b, c, NAME, x, n);
            let k = n as i32;
            let f = lbl(c, || {
                [
                    (format!("{x:b}"), format!("{k:b}"), "b"),
                    (format!("{x:o}"), format!("{k:o}"), "o"),
                    (format!("{x:x}"), format!("{k:x}"), "x"),
                    (format!("{x:X}"), format!("{k:X}"), "X"),
                    (format!("{x:#x}"), format!("{k:#x}"), "#x"),
                    (format!("{x:#010b}"), format!("{k:#010b}"), "#b"),
                    (format!("{x:>20X}"), format!("{k:>20X}"), ">X"),
                    (format!("{x:<+15o}"), format!("{k:<+15o}"), "<o"),
                ]
            });
            match f {
                Ok(v) => {
                    for (g, w, s) in v {
                        c.check(g == w, || format!("{NAME}:fmt:{s}"), || format!("{n} prints {g}, expected {w}"));
                    }
                }
                Err(p) => c.violation(format!("{NAME}:fmt-panic"), p.0),
            }
            let dbg = lbl(c, || format!("{x:?}"));
            c.check(dbg.is_ok(), || format!("{NAME}:debug-panic"), || format!("{n}"));
        }
        fn one(c: &mut Ctx, n: i128) {
            let inr = n >= MINI && n <= MAXI;
            from_num!(c, NAME, R, n, inr, MINI, MAXI, u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
            if let Ok(i) = i32::try_from(n) {
                match lbl(c, || R::try_from_i32(i)) {
                    Ok(Ok(x)) => {
                        c.check(inr, || format!("{NAME}:try_from_i32:accepted"), || format!("{n}"));
                        if inr {
                            valid(c, x, n, "try_from_i32")
                        }
                    }
                    Ok(Err(e)) => {
                        c.check(!inr, || format!("{NAME}:try_from_i32:refused"), || format!("{n}: {e:?}"));
                        if !inr {
                            c.check(bounds_ok(&widen(e), MINI, MAXI, n), || format!("{NAME}:try_from_i32:error"), || format!("{n}: {e:?}"));
                        }
                        let s = lbl(c, || e.to_string());
                        c.check(s.is_ok(), || format!("{NAME}:error-display-panic"), || format!("{n}"));
                    }
                    Err(p) => c.violation(format!("{NAME}:try_from_i32:panic"), format!("{n}: {}", p.0)),
                }
                match lbl(c, || R::from_i32(i).to_i32()) {
                    Ok(k) => c.check(inr && k == i, || format!("{NAME}:from_i32"), || format!("{n} -> {k}")),
                    Err(_) => c.check(!inr, || format!("{NAME}:from_i32:panic"), || format!("{n}")),
                }
                if inr {
                    match lbl(c, || unsafe { R::from_numeric_unchecked(i) }.to_i32()) {
                        Ok(k) => c.check(k == i, || format!("{NAME}:from_numeric_unchecked"), || format!("{n} -> {k}")),
                        Err(p) => c.violation(format!("{NAME}:from_numeric_unchecked:panic"), format!("{n}: {}", p.0)),
                    }
                    c.count("in range", 1);
                } else {
                    c.count("out of range", 1);
                }
            }
        }
        /// a stored number: an offset when the minimum is positive
        fn raw(c: &mut Ctx, raw: i128) {
            let Ok(x) = <$b>::try_from(raw) else { return };
            let n = if MINI > 0 { raw + MINI } else { raw };
            let inr = n >= MINI && n <= MAXI;
            match lbl(c, || R::try_from_underlying(x)) {
                Ok(Ok(y)) => {
                    c.check(inr, || format!("{NAME}:try_from_underlying:accepted"), || format!("stored {raw}"));
                    if inr {
                        valid(c, y, n, "try_from_underlying")
                    }
                }
                Ok(Err(e)) => c.check(!inr, || format!("{NAME}:try_from_underlying:refused"), || format!("stored {raw}: {e:?}")),
                Err(p) => c.violation(format!("{NAME}:try_from_underlying:panic"), format!("stored {raw}: {}", p.0)),
            }
            match lbl(c, || R::from_underlying(x).to_i32()) {
                Ok(k) => c.check(inr && k as i128 == n, || format!("{NAME}:from_underlying"), || format!("stored {raw} -> {k}")),
                Err(_) => c.check(!inr, || format!("{NAME}:from_underlying:panic"), || format!("stored {raw}")),
            }
            // decoding the stored bytes
            let b = raw.to_be_bytes()[16 - W..].to_vec();
            match lbl(c, || R::try_decode::<_, ByteParser>(b.clone()).map(|y| y.to_i32()).map_err(|_| ())) {
                Ok(Ok(k)) => c.check(inr && k as i128 == n, || format!("{NAME}:decode:{}", if inr { "value" } else { "accepted" }), || format!("{} -> {k}", hex(&b))),
                Ok(Err(_)) => c.check(!inr, || format!("{NAME}:decode:refused"), || format!("{} denotes {n}", hex(&b))),
                Err(p) => c.violation(format!("{NAME}:decode:panic"), format!("{}: {}", hex(&b), p.0)),
            }
            if inr {
                match lbl(c, || unsafe { R::from_underlying_unchecked(x) }.to_i32()) {
                    Ok(k) => c.check(k as i128 == n, || format!("{NAME}:from_underlying_unchecked"), || format!("stored {raw} -> {k}")),
                    Err(p) => c.violation(format!("{NAME}:from_underlying_unchecked:panic"), format!("stored {raw}: {}", p.0)),
                }
            }
            c.count("stored numbers observed", 1);
        }
        fn consts(c: &mut Ctx) {
            let r = lbl(c, || (R::min_val().to_i32() as i128, R::max_val().to_i32() as i128, R::default().to_i32() as i128, <R as FixedLength>::LEN));
            match r {
                Ok((lo, hi, d, len)) => {
                    c.check(lo == MINI, || format!("{NAME}:min_val"), || format!("{lo}"));
                    c.check(hi == MAXI, || format!("{NAME}:max_val"), || format!("{hi}"));
                    c.check(d >= MINI && d <= MAXI, || format!("{NAME}:default"), || format!("{d} is not in the range"));
                    c.check(d == 0.clamp(MINI, MAXI), || format!("{NAME}:default-nearest-zero"), || format!("{d}"));
                    c.check(len == W, || format!("{NAME}:LEN"), || format!("{len}"));
                }
                Err(p) => c.violation(format!("{NAME}:consts-panic"), p.0),
            }
            if <$b>::try_from(MINI).is_ok() {
                let m = Into::<i64>::into(R::MIN) as i128;
                c.check(m == MINI, || format!("{NAME}:MIN"), || format!("{m}"));
            }
            if <$b>::try_from(MAXI).is_ok() {
                let m = Into::<i64>::into(R::MAX) as i128;
                c.check(m == MAXI, || format!("{NAME}:MAX"), || format!("{m}"));
            }
        }
        fn pair(c: &mut Ctx, a: i32, b: i32) {
            let r = lbl(c, || {
                let (x, y) = (R::try_from_i32(a).unwrap(), R::try_from_i32(b).unwrap());
                (x.cmp(&y), x.partial_cmp(&y), x == y, h64(&x) == h64(&y))
            });
            match r {
                Ok((o, p, e, h)) => c.check(o == a.cmp(&b) && p == Some(o) && e == (a == b) && (!e || h), || format!("{NAME}:order"), || format!("{a} {b}: {o:?} {p:?} {e} {h}")),
                Err(p) => c.violation(format!("{NAME}:order-panic"), format!("{a} {b}: {}", p.0)),
            }
        }
        RT { name: NAME, min: MINI, max: MAXI, bmin: <$b>::MIN as i128, bmax: <$b>::MAX as i128, one, raw, consts, pair }
    }};
}

fn ints() -> Vec<RT> {
    vec![
        rt!(u8, 0, 255), rt!(u8, 0, 100), rt!(u8, 5, 250), rt!(u8, 256, 257), rt!(u8, 1000, 1255), rt!(u8, 0, 0), rt!(u8, 1, 1), rt!(u8, 1, 255),
        rt!(i8, -128, 127), rt!(i8, -100, 27), rt!(i8, -5, -3), rt!(i8, 3, 100), rt!(i8, -1, -1), rt!(i8, 500, 627), rt!(i8, 0, 127),
        rt!(u16, 0, 65535), rt!(u16, 1000, 1000), rt!(u16, 1000, 66000), rt!(u16, 65535, 131070), rt!(u16, 2, 3),
        rt!(i16, -32768, 32767), rt!(i16, -5, -3), rt!(i16, 10, 32000), rt!(i16, -300, 0), rt!(i16, 40000, 60000),
        rt!(u32, 0, 0x3fff_ffff), rt!(u32, 70000, 0x3fff_ffff), rt!(u32, 0x3fff_ffff, 0x3fff_ffff), rt!(u32, 0, 0x7fff_ffff), rt!(u32, 1, 0x7fff_ffff), rt!(u32, 0, 0),
        rt!(i32, -0x4000_0000, 0x3fff_ffff), rt!(i32, 10, 20), rt!(i32, -0x8000_0000, 0x7fff_ffff), rt!(i32, -1, 0), rt!(i32, 0x7fff_ffff, 0x7fff_ffff), rt!(i32, 1, 0x7fff_ffff), rt!(i32, -2000000000, -1),
    ]
}

fn number(t: &RT, r: &mut Rng) -> i128 {
    let edge = |r: &mut Rng, x: i128| x + r.irange(-3, 3);
    match r.below(12) {
        0 => edge(r, t.min),
        1 => edge(r, t.max),
        2 => edge(r, 0),
        3 => {
            let x = *r.pick(&[i8::MIN as i128, i8::MAX as i128, u8::MAX as i128, i16::MIN as i128, i16::MAX as i128, u16::MAX as i128, i32::MIN as i128, i32::MAX as i128, u32::MAX as i128, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128]);
            edge(r, x)
        }
        4 => edge(r, t.max - t.min),
        5 => edge(r, t.min + t.bmax),
        6 => r.irange(-70_000, 140_000),
        7 => r.u64() as i64 as i128,
        8 => r.u64() as i128,
        9 => r.u64() as i32 as i128,
        _ => r.irange(t.min, t.max),
    }
}

// ---------------------------------------------------------------------- floats
struct FT {
    name: &'static str,
    min: f64,
    max: f64,
    one: fn(&mut Ctx, f64),
    one32: fn(&mut Ctx, f32),
    consts: fn(&mut Ctx),
}

macro_rules! ft {
    ($min:expr, $max:expr) => {{
        type R = RangedF64!($min, $max);
        const NAME: &str = concat!("RangedF64<", stringify!($min), ",", stringify!($max), ">");
        fn valid(c: &mut Ctx, x: R, v: f64, how: &str) {
            let r = lbl(c, || (x.as_f64().to_bits(), f64::from(x).to_bits(), x.get_validated().map(|y| y.to_bits()).ok(), x.to_bytes(), x == x, x.partial_cmp(&x)));
            let b = v.to_bits();
            match r {
                Ok((a, f, g, e, s, o)) => {
                    c.check(a == b && f == b && g == Some(b) && s && o == Some(std::cmp::Ordering::Equal), || format!("{NAME}:access"), || format!("{v:?} ({how}): {a:x} {f:x} {g:x?}"));
                    c.check(e == b.to_be_bytes(), || format!("{NAME}:encoding"), || format!("{v:?} encodes as {}", hex(&e)));
                    let d = lbl(c, || format!("{x:?}"));
                    c.check(d.is_ok(), || format!("{NAME}:debug"), || format!("{v:?}"));
                }
                Err(p) => c.violation(format!("{NAME}:access-panic"), format!("{v:?} ({how}): {}", p.0)),
            }
        }
        fn ferr(c: &mut Ctx, e: &BoundsError<f64>, v: f64, how: &str) {
            let (lo, hi): (f64, f64) = ($min, $max);
            let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || a == b || (a.is_nan() && b.is_nan());
            let ok = match e {
                BoundsError::Underflow { min, val } => !(v >= lo) && same(*min, lo) && same(*val, v),
                BoundsError::Overflow { max, val } => !(v <= hi) && same(*max, hi) && same(*val, v),
                _ => false,
            };
            c.check(ok, || format!("{NAME}:{how}:error"), || format!("{v:?}: {e:?}"));
            let d = lbl(c, || e.to_string());
            c.check(d.is_ok(), || format!("{NAME}:error-display-panic"), || format!("{v:?}"));
        }
        fn one(c: &mut Ctx, v: f64) {
            let (lo, hi): (f64, f64) = ($min, $max);
            let inr = v >= lo && v <= hi;
            c.count(if inr { "floats in range" } else { "floats out of range" }, 1);
            let ways: [(&str, Result<Result<R, BoundsError<f64>>, Panicked>); 2] = [("try_from_f64", lbl(c, || R::try_from_f64(v))), ("TryFrom<f64>", lbl(c, || R::try_from(v)))];
            for (how, r) in ways {
                match r {
                    Ok(Ok(x)) => {
                        c.check(inr, || format!("{NAME}:{how}:accepted"), || format!("{v:?}"));
                        valid(c, x, v, how)
                    }
                    Ok(Err(e)) => {
                        c.check(!inr, || format!("{NAME}:{how}:refused"), || format!("{v:?}: {e:?}"));
                        if !inr {
                            ferr(c, &e, v, how)
                        }
                    }
                    Err(p) => c.violation(format!("{NAME}:{how}:panic"), format!("{v:?}: {}", p.0)),
                }
            }
            match lbl(c, || R::from_f64(v)) {
                Ok(x) => {
                    c.check(inr, || format!("{NAME}:from_f64:accepted"), || format!("{v:?}"));
                    valid(c, x, v, "from_f64")
                }
                Err(_) => c.check(!inr, || format!("{NAME}:from_f64:panic"), || format!("{v:?}")),
            }
            let b = v.to_bits().to_be_bytes();
            match lbl(c, || R::try_decode::<_, ByteParser>(b)) {
                Ok(Ok(x)) => {
                    c.check(inr, || format!("{NAME}:decode:accepted"), || format!("{v:?}"));
                    valid(c, x, v, "decode")
                }
                Ok(Err(_)) => c.check(!inr, || format!("{NAME}:decode:refused"), || format!("{v:?}")),
                Err(p) => c.violation(format!("{NAME}:decode:panic"), format!("{v:?}: {}", p.0)),
            }
            let p = lbl(c, || R::prevalidate_f64(v).map(f64::to_bits).ok());
            c.check(matches!(p, Ok(o) if o == if inr { Some(v.to_bits()) } else { None }), || format!("{NAME}:prevalidate_f64"), || format!("{v:?}: {p:?}"));
        }
        fn one32(c: &mut Ctx, v: f32) {
            let (lo, hi): (f64, f64) = ($min, $max);
            let w = f64::from(v);
            let inr = w >= lo && w <= hi;
            match lbl(c, || R::try_from(v)) {
                Ok(Ok(x)) => {
                    c.check(inr, || format!("{NAME}:TryFrom<f32>:accepted"), || format!("{v:?}"));
                    valid(c, x, w, "TryFrom<f32>")
                }
                Ok(Err(e)) => {
                    c.check(!inr, || format!("{NAME}:TryFrom<f32>:refused"), || format!("{v:?}: {e:?}"));
                    if !inr {
                        ferr(c, &e, w, "TryFrom<f32>")
                    }
                }
                Err(p) => c.violation(format!("{NAME}:TryFrom<f32>:panic"), format!("{v:?}: {}", p.0)),
            }
            let p = lbl(c, || R::prevalidate_f32(v).map(f64::to_bits).ok());
            c.check(matches!(p, Ok(o) if o == if inr { Some(w.to_bits()) } else { None }), || format!("{NAME}:prevalidate_f32"), || format!("{v:?}: {p:?}"));
        }
        fn consts(c: &mut Ctx) {
            let (lo, hi): (f64, f64) = ($min, $max);
            let r = lbl(c, || (R::MIN_F64.to_bits(), R::MAX_F64.to_bits(), f64::from(R::MIN).to_bits(), f64::from(R::MAX).to_bits(), f64::from(R::default()), <R as FixedLength>::LEN));
            match r {
                Ok((a, b, x, y, d, l)) => {
                    c.check(a == lo.to_bits() && x == a && b == hi.to_bits() && y == b, || format!("{NAME}:MIN/MAX"), || format!("{a:x} {b:x} {x:x} {y:x}"));
                    c.check(d >= lo && d <= hi, || format!("{NAME}:default"), || format!("{d:?}"));
                    c.check(l == 8, || format!("{NAME}:LEN"), || format!("{l}"));
                }
                Err(p) => c.violation(format!("{NAME}:consts-panic"), p.0),
            }
        }
        FT { name: NAME, min: $min, max: $max, one, one32, consts }
    }};
}

fn floats() -> Vec<FT> {
    vec![
        ft!(-1.0, 1.0), ft!(0.0, 1.0), ft!(0.0, f64::INFINITY), ft!(f64::NEG_INFINITY, f64::INFINITY), ft!(2.5, 2.5), ft!(-0.0, 0.0), ft!(0.1, 0.2), ft!(-1e300, -1e-300), ft!(f64::MIN_POSITIVE, f64::MAX), ft!(5e-324, 1e-310), ft!(1.0, 16777217.0),
    ]
}

// --------------------------------------------- ranges a schema can get wrong
/// a range that is inverted, or that reaches beyond what its backer can store:
/// only the representable values inside it exist, and everything else is an
/// error that states something true
struct Odd {
    name: &'static str,
    min: i128,
    max: i128,
    bmin: i128,
    bmax: i128,
    one: OneFn,
    raw: OneFn,
}

fn odd_ok(e: &BoundsError<i128>, min: i128, max: i128, v: i128, representable: bool) -> bool {
    match e {
        BoundsError::InvalidBounds { min: m, max: x } => min > max && (*m, *x) == (min, max),
        BoundsError::Failed(_) => v >= min && v <= max && !representable,
        e => bounds_ok(e, min, max, v) || (min > 0 && min > max && bounds_ok(e, min, max, v + min)),
    }
}

macro_rules! odd_from {
    ($c:ident, $tn:expr, $rt:ty, $n:expr, $ok:expr, $rep:expr, $min:expr, $max:expr, $($s:ty),*) => {$(
        if let Ok(s) = <$s>::try_from($n) {
            match lbl($c, || <$rt>::try_from(s).map(|x| x.to_i32() as i128)) {
                Ok(Ok(x)) => $c.check($ok && x == $n, || format!("{}:TryFrom<{}>:accepted", $tn, stringify!($s)), || format!("{} -> {}", $n, x)),
                Ok(Err(e)) => {
                    $c.check(!$ok, || format!("{}:TryFrom<{}>:refused", $tn, stringify!($s)), || format!("{}: {:?}", $n, e));
                    $c.check($ok || odd_ok(&e, $min, $max, $n, $rep), || format!("{}:TryFrom<{}>:error", $tn, stringify!($s)), || format!("{}: {:?}", $n, e));
                    let s = lbl($c, || (e.to_string(), format!("{e:?}"), std::error::Error::source(&e).is_some()));
                    $c.check(matches!(&s, Ok((d, _, src)) if !d.is_empty() && *src == matches!(e, BoundsError::Failed(_))), || format!("{}:TryFrom<{}>:error-display", $tn, stringify!($s)), || format!("{}: {:?}", $n, s));
                }
                Err(p) => $c.violation(format!("{}:TryFrom<{}>:panic", $tn, stringify!($s)), format!("{}: {}", $n, p.0)),
            }
        }
    )*};
}

macro_rules! odd {
    ($b:tt, $min:expr, $max:expr) => {{
        type R = RangedInt<$b, { $min }, { $max }>;
        const NAME: &str = concat!("RangedInt<", stringify!($b), ",", stringify!($min), ",", stringify!($max), ">");
        const MINI: i128 = $min as i128;
        const MAXI: i128 = $max as i128;
        const W: usize = std::mem::size_of::<$b>();
        fn one(c: &mut Ctx, n: i128) {
            let rep = <$b>::try_from(if MINI > 0 { n - MINI } else { n }).is_ok();
            let ok = n >= MINI && n <= MAXI && rep;
            c.count(if ok { "odd ranges: representable" } else { "odd ranges: refused" }, 1);
            odd_from!(c, NAME, R, n, ok, rep, MINI, MAXI, u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
            if let Ok(i) = i32::try_from(n) {
                match lbl(c, || R::try_from_i32(i)) {
                    Ok(Ok(x)) => {
                        let k = lbl(c, || (x.to_i32(), x.to_bytes().len()));
                        c.check(ok && matches!(k, Ok((k, W)) if k == i), || format!("{NAME}:try_from_i32:accepted"), || format!("{n} -> {k:?}"));
                    }
                    Ok(Err(e)) => {
                        let s = lbl(c, || e.to_string());
                        c.check(s.is_ok(), || format!("{NAME}:error-display-panic"), || format!("{n}"));
                        c.check(!ok, || format!("{NAME}:try_from_i32:refused"), || format!("{n}: {e:?}"));
                        c.check(ok || odd_ok(&widen(e), MINI, MAXI, n, rep), || format!("{NAME}:try_from_i32:error"), || format!("{n}: {e:?}"));
                    }
                    Err(p) => c.violation(format!("{NAME}:try_from_i32:panic"), format!("{n}: {}", p.0)),
                }
                match lbl(c, || R::from_i32(i).to_i32()) {
                    Ok(k) => c.check(ok && k == i, || format!("{NAME}:from_i32"), || format!("{n} -> {k}")),
                    Err(_) => c.check(!ok, || format!("{NAME}:from_i32:panic"), || format!("{n}")),
                }
            }
        }
        fn raw(c: &mut Ctx, raw: i128) {
            let Ok(x) = <$b>::try_from(raw) else { return };
            let n = if MINI > 0 { raw + MINI } else { raw };
            // a stored number below zero is no offset
            let ok = n >= MINI && n <= MAXI;
            match lbl(c, || R::try_from_underlying(x).map(|y| (y.to_i32() as i128, Into::<i64>::into(y.to_underlying()) as i128))) {
                Ok(Ok((k, u))) => c.check(ok && k == n && u == raw, || format!("{NAME}:try_from_underlying:accepted"), || format!("stored {raw} -> {k} / {u}")),
                Ok(Err(e)) => {
                    c.check(!ok, || format!("{NAME}:try_from_underlying:refused"), || format!("stored {raw}: {e:?}"));
                    let e = widen(e);
                    c.check(ok || odd_ok(&e, MINI, MAXI, n, true) || odd_ok(&e, MINI, MAXI, raw, true), || format!("{NAME}:try_from_underlying:error"), || format!("stored {raw}: {e:?}"));
                }
                Err(p) => c.violation(format!("{NAME}:try_from_underlying:panic"), format!("stored {raw}: {}", p.0)),
            }
            let b = raw.to_be_bytes()[16 - W..].to_vec();
            match lbl(c, || R::try_decode::<_, ByteParser>(b.clone()).map(|y| y.to_i32() as i128).map_err(|e| e.to_string())) {
                Ok(Ok(k)) => c.check(ok && k == n, || format!("{NAME}:decode:accepted"), || format!("{} -> {k}", hex(&b))),
                Ok(Err(e)) => c.check(!ok && !e.is_empty(), || format!("{NAME}:decode:refused"), || format!("{}: {e}", hex(&b))),
                Err(p) => c.violation(format!("{NAME}:decode:panic"), format!("{}: {}", hex(&b), p.0)),
            }
        }
        Odd { name: NAME, min: MINI, max: MAXI, bmin: <$b>::MIN as i128, bmax: <$b>::MAX as i128, one, raw }
    }};
}

fn odds() -> Vec<Odd> {
    vec![
        odd!(u8, 10, 5), odd!(i8, 5, -5), odd!(i16, 0, -1), odd!(u16, 100, 50), odd!(u32, 7, 0), odd!(i32, 0x7fff_ffff, -0x8000_0000), odd!(i32, -1, -2), odd!(u8, 300, 3), odd!(i8, -100, -120),
        odd!(u8, 0, 1000), odd!(u8, 5, 1000), odd!(u8, -10, 10), odd!(u8, -10, -5), odd!(i8, -300, 300), odd!(i8, 0, 128), odd!(i8, 1, 1000), odd!(i8, -129, -128), odd!(u16, -1, 70000), odd!(u16, 1, 70000),
        odd!(i16, -40000, 40000), odd!(u32, -5, 5), odd!(u32, -0x4000_0000, 0x3fff_ffff), odd!(i16, 200, 0x3fff_ffff),
    ]
}

struct OddF {
    name: &'static str,
    one: fn(&mut Ctx, f64),
}

macro_rules! oddf {
    ($min:expr, $max:expr) => {{
        type R = RangedF64!($min, $max);
        const NAME: &str = concat!("RangedF64<", stringify!($min), ",", stringify!($max), ">");
        fn one(c: &mut Ctx, v: f64) {
            let (lo, hi): (f64, f64) = ($min, $max);
            let bits = |e: &BoundsError<f64>| matches!(e, BoundsError::InvalidBounds { min, max } if min.to_bits() == lo.to_bits() && max.to_bits() == hi.to_bits());
            let raw = unsafe { R::from_f64_unchecked(v) };
            c.check(raw.as_f64().to_bits() == v.to_bits() && f64::from(raw).to_bits() == v.to_bits(), || format!("{NAME}:from_f64_unchecked"), || format!("{v:?}"));
            let all = lbl(c, || {
                [
                    ("try_from_f64", R::try_from_f64(v).map(f64::from)),
                    ("TryFrom<f64>", R::try_from(v).map(f64::from)),
                    ("TryFrom<f32>", R::try_from(v as f32).map(f64::from)),
                    ("prevalidate_f64", R::prevalidate_f64(v)),
                    ("prevalidate_f32", R::prevalidate_f32(v as f32)),
                    ("get_validated", raw.get_validated()),
                ]
            });
            match all {
                Ok(a) => {
                    for (how, r) in a {
                        c.check(matches!(&r, Err(e) if bits(e) && !e.to_string().is_empty()), || format!("{NAME}:{how}"), || format!("{v:?}: {r:?}"));
                    }
                }
                Err(p) => c.violation(format!("{NAME}:panic"), format!("{v:?}: {}", p.0)),
            }
            let p = lbl(c, || R::from_f64(v));
            c.check(p.is_err(), || format!("{NAME}:from_f64"), || format!("{v:?} accepted"));
            let d = lbl(c, || R::try_decode::<_, ByteParser>(v.to_bits().to_be_bytes()).map(f64::from).map_err(|e| e.to_string()));
            c.check(matches!(&d, Ok(Err(e)) if !e.is_empty()), || format!("{NAME}:decode"), || format!("{v:?}: {d:?}"));
            c.count("odd float ranges: refused", 1);
        }
        OddF { name: NAME, one }
    }};
}

fn oddfs() -> Vec<OddF> {
    vec![oddf!(1.0, -1.0), oddf!(f64::NAN, 1.0), oddf!(0.0, f64::NAN), oddf!(f64::NAN, f64::NAN), oddf!(f64::INFINITY, f64::NEG_INFINITY), oddf!(5e-324, 0.0)]
}

/// the documented bijection between bounds and const generics
fn const_generics(c: &mut Ctx, r: &mut Rng) {
    use tedium::float::{from_const_generic, to_const_generic};
    let b = match r.below(4) {
        0 => (*r.pick(&[0.0f64, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN, f64::MAX, 5e-324])).to_bits(),
        1 => 0x7ff0_0000_0000_0000 | r.u64() >> 12,
        _ => r.u64(),
    };
    let f = f64::from_bits(b);
    let (t, u) = (to_const_generic(f), from_const_generic(b).to_bits());
    c.check(t == b && u == b, || "const-generic".into(), || format!("{b:016x}: {t:016x} {u:016x}"));
}

fn float(t: &FT, r: &mut Rng) -> f64 {
    let near = |x: f64, r: &mut Rng| f64::from_bits(x.to_bits().wrapping_add(r.irange(-3, 3) as u64));
    match r.below(10) {
        0 | 1 => near(t.min, r),
        2 | 3 => near(t.max, r),
        4 => *r.pick(&[0.0, -0.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN, f64::MAX, f64::EPSILON, 5e-324, f64::from_bits(0x7ff0_0000_0000_0001)]),
        5 => f64::from_bits(r.u64()),
        6 => -near(t.max, r),
        7 => (r.u64() as i32 as f64) / 1e9,
        _ => {
            let u = (r.u64() >> 11) as f64 / (1u64 << 53) as f64;
            let x = t.min + (t.max - t.min) * u;
            if x.is_nan() {
                u
            } else {
                x
            }
        }
    }
}

fn main() {
    let mut c = Ctx::from_args("C12");
    assert_eq!(c.prop, "C12");
    let ts = ints();
    let n = c.n(1500, 60_000);
    for t in &ts {
        c.cases(&format!("{}/consts", t.name), 1, |c, _| (t.consts)(c));
        c.cases(&format!("{}/number", t.name), n, |c, r| {
            let x = number(t, r);
            c.seen(format!("{}{x}", t.name).as_bytes());
            c.sample(|| format!("{} {x}", t.name));
            (t.one)(c, x)
        });
        c.cases(&format!("{}/stored", t.name), n / 2, |c, r| {
            let d = r.irange(-3, 3);
            let x = match r.below(5) {
                0 => t.bmin + d.max(0),
                1 => t.bmax - d.max(0),
                2 => d,
                3 => t.max - if t.min > 0 { t.min } else { 0 } + d,
                _ => r.irange(t.bmin, t.bmax),
            };
            c.seen(format!("{}raw{x}", t.name).as_bytes());
            (t.raw)(c, x)
        });
        c.cases(&format!("{}/order", t.name), n / 10, |c, r| {
            let a = r.irange(t.min, t.max) as i32;
            let b = if r.chance(1, 3) { a } else if r.chance(1, 2) { (a as i128 + r.irange(-2, 2)).clamp(t.min, t.max) as i32 } else { r.irange(t.min, t.max) as i32 };
            (t.pair)(c, a, b)
        });
        // every stored value of the narrow backers
        if t.bmax <= 255 {
            c.cases(&format!("{}/all-stored", t.name), 256, |c, _| {
                let ix: i128 = c.label().rsplit('#').next().unwrap().parse().unwrap();
                (t.raw)(c, t.bmin + ix);
                (t.one)(c, t.min - 5 + ix);
            });
        }
    }
    let fs = floats();
    for t in &fs {
        c.cases(&format!("{}/consts", t.name), 1, |c, _| (t.consts)(c));
        c.cases(&format!("{}/number", t.name), n, |c, r| {
            let x = float(t, r);
            c.seen(format!("{}{:x}", t.name, x.to_bits()).as_bytes());
            c.sample(|| format!("{} {x:?}", t.name));
            (t.one)(c, x);
            (t.one32)(c, if r.chance(1, 3) { f32::from_bits(r.u64() as u32) } else { f32::from_bits((x as f32).to_bits().wrapping_add(r.irange(-2, 2) as u32)) });
        });
    }
    // (with that feature the library documents a panic for such types)
    if !cfg!(feature = "invalid_range_checking") {
        for t in &odds() {
            c.cases(&format!("{}/odd", t.name), n / 3, |c, r| {
                let d = r.irange(-2, 2);
                let x = match r.below(8) {
                    0 => t.min + d,
                    1 => t.max + d,
                    2 => d,
                    3 => t.bmin + d,
                    4 => t.bmax + d,
                    5 => t.min + t.bmax + d,
                    6 => r.irange(-70_000, 140_000),
                    _ => r.irange(t.min.min(t.max), t.min.max(t.max)),
                };
                c.seen(format!("{}{x}", t.name).as_bytes());
                (t.one)(c, x);
                (t.raw)(c, if r.chance(1, 2) { x } else { r.irange(t.bmin, t.bmax) });
            });
        }
    }
    for t in &oddfs() {
        c.cases(&format!("{}/odd", t.name), n / 10, |c, r| {
            let x = *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 5e-324]);
            let x = if r.chance(1, 2) { x } else { f64::from_bits(r.u64()) };
            c.seen(format!("{}{:x}", t.name, x.to_bits()).as_bytes());
            (t.one)(c, x)
        });
    }
    c.cases("const-generics", n, |c, r| const_generics(c, r));
    c.count("types", (ts.len() + fs.len()) as u64);
    c.finish()
}
