//! C20: fixed-width byte and text values accept exactly their width and carry
//! exactly their source bytes through every accessor and conversion.

use mon::ops::{AnyP, KINDS};
use mon::prng::Rng;
use mon::rep::{hex, Ctx};
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use tedium::conv::len::{Estimable, FixedLength};
use tedium::conv::EncodeLength;
use tedium::error::WidthError;
use tedium::*;

fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn width(r: &mut Rng, n: usize) -> usize {
    match r.below(8) {
        0 => n.saturating_sub(1),
        1 => n + 1,
        2 => 0,
        3 => n * 2,
        4 => r.range(0, n + 300),
        5 => n + 256,
        _ => n,
    }
}
fn content(r: &mut Rng, n: usize) -> Vec<u8> {
    if r.chance(1, 3) {
        // text of exactly that many bytes
        let mut s = String::new();
        while s.len() < n {
            let ch = *r.pick(&['a', 'Z', '0', ' ', '"', '\n', '\0', 'é', '語', '🦀', '\u{7f}']);
            if s.len() + ch.len_utf8() <= n {
                s.push(ch);
            } else {
                s.push('x');
            }
        }
        s.into_bytes()
    } else if r.chance(1, 2) {
        r.spicy_bytes(n)
    } else {
        r.bytes(n)
    }
}

fn wrong(e: &WidthError, exact: usize, actual: usize) -> bool {
    matches!(e, WidthError::WrongWidth { exact: x, actual: a } if *x == exact && *a == actual)
}

/// one constructor outcome against "exactly N bytes"
fn outcome<T>(c: &mut Ctx, ty: &str, how: &str, n: usize, len: usize, g: Result<Result<T, Option<WidthError>>, mon::rep::Panicked>) -> Option<T> {
    let sig = |k: &str| format!("{ty}/{how}/{k}");
    match g {
        Ok(Ok(v)) => {
            c.check(len == n, || sig("accepts"), || format!("{ty}<{n}> from {len} bytes"));
            c.count("constructions accepted", 1);
            if len == n {
                Some(v)
            } else {
                None
            }
        }
        Ok(Err(e)) => {
            c.check(len != n, || sig("rejects"), || format!("{ty}<{n}> from {len} bytes: {e:?}"));
            if let Some(e) = e {
                c.check(wrong(&e, n, len), || sig("error"), || format!("{ty}<{n}> from {len} bytes: {e:?}"));
            }
            c.count("constructions refused", 1);
            None
        }
        Err(p) => {
            c.violation(sig("panic"), format!("{ty}<{n}> from {len} bytes: {}", p.0));
            None
        }
    }
}

fn enc_all<T: Encode + EncodeLength + Estimable>(c: &mut Ctx, ty: &str, v: &T, b: &[u8]) {
    let n = b.len();
    let e: Vec<u8> = Encode::to_bytes(v);
    c.check(e == b, || format!("{ty}/encode"), || format!("{} vs {}", hex(&e), hex(b)));
    let mut w = vec![1, 2];
    let k = v.write_to(&mut w);
    c.check(k == n && w[..2] == [1, 2] && w[2..] == *b, || format!("{ty}/write_to"), || format!("{k}: {}", hex(&w)));
    let mut w = vec![3];
    v.write_to_vec(&mut w);
    c.check(w[0] == 3 && w[1..] == *b, || format!("{ty}/write_to_vec"), || hex(&w));
    let e: Vec<u8> = v.encode();
    c.check(e == b, || format!("{ty}/encode-into"), || hex(&e));
    let e = v.encode::<StrictBuilder>();
    let s: &[u8] = e.borrow();
    c.check(s == b && Builder::len(&e) == n, || format!("{ty}/encode-builder"), || hex(s));
    let h = v.encode::<HexString>();
    c.check(h.to_string() == hex(b), || format!("{ty}/encode-hex"), || h.to_string());
    c.check(v.enc_len() == n && v.estimate() == n && T::KNOWN == Some(n), || format!("{ty}/lengths"), || format!("{} {} {:?}", v.enc_len(), v.estimate(), T::KNOWN));
    c.check(v.to_bytes_full() == b, || format!("{ty}/to_bytes_full"), String::new);
}

/// decoding: exactly the next N bytes
fn dec<T: Decode + PartialEq + std::fmt::Debug>(c: &mut Ctx, r: &mut Rng, ty: &str, n: usize, src: &[u8], get: impl Fn(&T) -> Vec<u8>) {
    let kind = *r.pick(&KINDS);
    match c.guard(|| {
        let mut p = AnyP::new(kind, src);
        (T::parse(&mut p).map_err(|e| e.to_string()), p.remainder())
    }) {
        Ok((Ok(v), left)) => {
            c.check(src.len() >= n && get(&v) == src[..n] && left == src.len() - n, || format!("{ty}/decode"), || format!("<{n}> of {}: {v:?}, {left} left", hex(src)));
        }
        Ok((Err(e), left)) => c.check(src.len() < n && left == src.len(), || format!("{ty}/decode-rejects"), || format!("<{n}> of {}: {e}, {left} left", hex(src))),
        Err(p) => c.violation(format!("{ty}/decode-panic"), format!("<{n}> of {}: {}", hex(src), p.0)),
    }
}

macro_rules! size {
    ($c:ident, $k:expr, $n:literal) => {{
        const M: usize = $n;
        type FB = FixedBytes<{ M }>;
        type FS = FixedString<{ M }>;
        $c.cases(concat!("bytes-", $n), $k, |c, r| {
            let len = width(r, M);
            let src = content(r, len);
            c.seen(format!("B{M}/{}", hex(&src)).as_bytes());
            c.sample(|| format!("FixedBytes<{M}> from {}", hex(&src)));
            let a = { let g = c_guard(c, || FB::try_from_slice(&src).map_err(Some)); outcome(c, "FixedBytes", "try_from_slice", M, len, g) };
            let b = { let g = c_guard(c, || FB::try_from(&src[..]).map_err(|_| None)); outcome(c, "FixedBytes", "TryFrom-slice", M, len, g) };
            dec::<FB>(c, r, "FixedBytes", M, &src, |v| v.to_vec());
            if len != M {
                return;
            }
            let arr = <[u8; M]>::try_from(&src[..]).unwrap();
            let made = [a, b, Some(FB::from_array(arr)), Some(FB::from_array_ref(&arr)), Some(FB::from(arr)), Some(FB::from(&arr))];
            let names = ["try_from_slice", "TryFrom-slice", "from_array", "from_array_ref", "From-array", "From-ref"];
            for (how, v) in names.iter().zip(made) {
                let Some(v) = v else { continue };
                let sig = |k: &str| format!("FixedBytes/{how}/{k}");
                let br: &[u8] = v.borrow();
                let ba: &[u8; M] = v.borrow();
                let ar: &[u8] = v.as_ref();
                let aa: &[u8; M] = v.as_ref();
                let oks = [
                    ("bytes", v.bytes()[..] == src[..]), ("len", v.len() == M), ("to_array", v.to_array() == arr), ("to_vec", v.to_vec() == src),
                    ("borrow", br == &src[..] && ba == &arr), ("as_ref", ar == &src[..] && aa == &arr), ("into-vec", Vec::<u8>::from(v) == src), ("into-array", <[u8; M]>::from(v) == arr),
                    ("hex", format!("{v:x}") == hex(&src)), ("hex-flags", [format!("{v:#x}"), format!("{v:>80x}"), format!("{v:<80x}"), format!("{v:^80x}"), format!("{v:+x}"), format!("{v:080x}"), format!("{v:.2x}"), format!("{v:#06x}")].iter().all(|s| hex_shown(s, &hex(&src)))), ("LEN", <FB as FixedLength>::LEN == M), ("copy", { let w = v; w == v }),
                    ("debug", !format!("{v:?}").is_empty()),
                    ("hash", hash_of(&v) == hash_of(&src[..]) && hash_of(&v) == hash_of(&arr)),
                ];
                for (k, ok) in oks {
                    c.check(ok, || sig(k), || format!("<{M}> {}: {v:?}", hex(&src)));
                }
                enc_all(c, "FixedBytes", &v, &src);
            }
            // lookup through a borrowed form, order and equality as the bytes
            let v = FB::from(arr);
            let mut hm: HashMap<FB, u8> = HashMap::new();
            let mut bm: BTreeMap<FB, u8> = BTreeMap::new();
            hm.insert(v, 9);
            bm.insert(v, 9);
            let q: &[u8] = &src;
            c.check(hm.get(q) == Some(&9) && bm.get(q) == Some(&9), || "FixedBytes/lookup".into(), || hex(&src));
            let mut other = arr;
            if M > 0 {
                let i = r.below(M.max(1));
                other[i] = if r.chance(1, 2) { r.u8() } else { other[i] };
            }
            let o = FB::from(other);
            c.check((v == o) == (arr == other) && v.cmp(&o) == arr.cmp(&other) && v.partial_cmp(&o) == Some(arr.cmp(&other)), || "FixedBytes/order".into(), || format!("{v:?} {o:?}"));
            // writing through
            let mut m = v;
            if M > 0 {
                let i = r.below(M.max(1));
                let mut want = arr;
                want[i] ^= 0x5a;
                m.bytes_mut()[i] ^= 0x5a;
                c.check(m.to_array() == want && v.to_array() == arr, || "FixedBytes/bytes_mut".into(), || hex(&src));
                enc_all(c, "FixedBytes", &m, &want);
            }
        });
        $c.cases(concat!("text-", $n), $k, |c, r| {
            let len = width(r, M);
            let src = content(r, len);
            c.seen(format!("S{M}/{}", hex(&src)).as_bytes());
            let mut made: Vec<(&str, Option<FS>)> = vec![];
            made.push(("try_from_bytes", { let g = c_guard(c, || FS::try_from_bytes(&src).map_err(Some)); outcome(c, "FixedString", "try_from_bytes", M, len, g) }));
            made.push(("TryFrom-slice", { let g = c_guard(c, || FS::try_from(&src[..]).map_err(Some)); outcome(c, "FixedString", "TryFrom-slice", M, len, g) }));
            let text = std::str::from_utf8(&src).ok();
            if let Some(t) = text {
                made.push(("FromStr", { let g = c_guard(c, || FS::from_str(t).map_err(Some)); outcome(c, "FixedString", "FromStr", M, len, g) }));
                made.push(("TryFrom-str", { let g = c_guard(c, || FS::try_from(t).map_err(Some)); outcome(c, "FixedString", "TryFrom-str", M, len, g) }));
                made.push(("TryFrom-String", { let g = c_guard(c, || FS::try_from(t.to_string()).map_err(Some)); outcome(c, "FixedString", "TryFrom-String", M, len, g) }));
                c.count("valid UTF-8 sources", 1);
            } else {
                c.count("invalid UTF-8 sources", 1);
            }
            dec::<FS>(c, r, "FixedString", M, &src, |v| Encode::to_bytes(v));
            if len != M {
                return;
            }
            let arr = <[u8; M]>::try_from(&src[..]).unwrap();
            made.push(("From-array", Some(FS::from(arr))));
            made.push(("From-ref", Some(FS::from(&arr))));
            if text.is_some() {
                made.push(("from_array_unchecked", Some(unsafe { FS::from_array_unchecked(&arr) })));
            }
            match c_guard(c, || FS::try_from_array(&arr)) {
                Ok(Ok(v)) => {
                    c.check(text.is_some(), || "FixedString/try_from_array/accepts".into(), || hex(&src));
                    made.push(("try_from_array", Some(v)));
                }
                Ok(Err(_)) => c.check(text.is_none(), || "FixedString/try_from_array/rejects".into(), || hex(&src)),
                Err(p) => c.violation("FixedString/try_from_array/panic", p.0),
            }
            let lossy = String::from_utf8_lossy(&src).into_owned();
            let base = FS::from(arr);
            for (how, v) in made {
                let Some(v) = v else { continue };
                let oks = [
                    ("len", v.len() == M), ("LEN", <FS as FixedLength>::LEN == M), ("is_valid_utf8", v.is_valid_utf8() == text.is_some()), ("as_string_lossy", v.as_string_lossy() == lossy),
                    ("display", v.to_string() == lossy), ("display-padded", format!("{v:>300}") == format!("{lossy:>300}") && format!("{v:.3}") == format!("{lossy:.3}")),
                    ("eq", v == base && hash_of(&v) == hash_of(&base)), ("debug", !format!("{v:?}").is_empty()),
                    ("as_str_unchecked", text.is_none() || unsafe { v.as_str_unchecked() } == lossy),
                ];
                for (k, ok) in oks {
                    c.check(ok, || format!("FixedString/{how}/{k}"), || format!("<{M}> {}: {v:?}", hex(&src)));
                }
                enc_all(c, "FixedString", &v, &src);
            }
            let mut other = arr;
            if M > 0 {
                let i = r.below(M.max(1));
                other[i] = r.u8();
            }
            let o = FS::from(other);
            c.check((base == o) == (arr == other) && base.cmp(&o) == arr.cmp(&other), || "FixedString/order".into(), || format!("{base:?} {o:?}"));
        });
    }};
}

fn c_guard<T>(c: &mut Ctx, f: impl FnOnce() -> T) -> Result<T, mon::rep::Panicked> {
    c.guard(f)
}

/// the text is the digits, whatever prefix, sign or fill the flags asked for
fn hex_shown(text: &str, digits: &str) -> bool {
    let t = text.trim();
    let t = t.strip_prefix('+').unwrap_or(t);
    let t = if t.len() > digits.len() { t.strip_prefix("0x").unwrap_or(t) } else { t };
    t.len() >= digits.len() && t.ends_with(digits) && t[..t.len() - digits.len()].bytes().all(|c| c == b'0')
}

fn main() {
    let mut c = Ctx::from_args("C20");
    let k = c.n(1500, 60_000);
    size!(c, k, 0);
    size!(c, k, 1);
    size!(c, k, 2);
    size!(c, k, 3);
    size!(c, k, 4);
    size!(c, k, 8);
    size!(c, k, 20);
    size!(c, k, 32);
    size!(c, k, 33);
    size!(c, k, 64);
    size!(c, k, 255);
    size!(c, k, 256);
    size!(c, k, 300);
    // widths behind and astride the powers of two
    let w = c.n(80, 2000);
    size!(c, w, 511);
    size!(c, w, 512);
    size!(c, w, 513);
    size!(c, w, 600);
    size!(c, w, 1000);
    size!(c, w, 1025);
    size!(c, w, 2047);
    size!(c, w / 4, 4097);
    size!(c, w / 8, 8193);
    size!(c, w / 16, 65535);
    size!(c, w / 16, 65537);
    // a default, where there is one, is all zeros
    c.cases("default", 1, |c, _| {
        c.check(FixedBytes::<20>::default().to_vec() == vec![0; 20] && FixedBytes::<0>::default().to_vec().is_empty(), || "FixedBytes/default".into(), String::new);
        c.seen(b"default");
    });
    c.finish()
}
