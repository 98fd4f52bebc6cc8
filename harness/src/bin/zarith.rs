//! C23: arbitrary-precision integers against an independent bit-level
//! reference: shortest group sequence, exact decoding, exact conversion.

use mon::ops::{AnyP, KINDS};
use mon::prng::Rng;
use mon::rep::{clip, hex, Ctx};
use num_bigint::{BigInt, BigUint, Sign};
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::*;

/// magnitude as bits, least significant first, no trailing zeros
type Bits = Vec<bool>;

fn trim(mut b: Bits) -> Bits {
    while b.last() == Some(&false) {
        b.pop();
    }
    b
}
fn bits_of(mut x: u128) -> Bits {
    let mut v = vec![];
    while x > 0 {
        v.push(x & 1 == 1);
        x >>= 1;
    }
    v
}
/// through the byte representation, which the codec does not use
fn big(b: &Bits) -> BigUint {
    let mut by = vec![0u8; b.len() / 8 + 1];
    for (i, x) in b.iter().enumerate() {
        if *x {
            by[i / 8] |= 1 << (i % 8);
        }
    }
    BigUint::from_bytes_le(&by)
}
fn small(b: &Bits) -> Option<u128> {
    if b.len() > 127 {
        return None;
    }
    Some(b.iter().enumerate().map(|(i, x)| (*x as u128) << i).sum())
}
fn ref_n(b: &Bits) -> Vec<u8> {
    let groups = ((b.len() + 6) / 7).max(1);
    (0..groups)
        .map(|g| {
            let mut x = 0u8;
            for k in 0..7 {
                if b.get(g * 7 + k) == Some(&true) {
                    x |= 1 << k;
                }
            }
            if g + 1 < groups {
                x | 0x80
            } else {
                x
            }
        })
        .collect()
}
fn ref_z(neg: bool, b: &Bits) -> Vec<u8> {
    let rest = b.len().saturating_sub(6);
    let groups = 1 + (rest + 6) / 7;
    (0..groups)
        .map(|g| {
            let mut x = 0u8;
            if g == 0 {
                for k in 0..6 {
                    if b.get(k) == Some(&true) {
                        x |= 1 << k;
                    }
                }
                if neg && !b.is_empty() {
                    x |= 0x40;
                }
            } else {
                for k in 0..7 {
                    if b.get(6 + (g - 1) * 7 + k) == Some(&true) {
                        x |= 1 << k;
                    }
                }
            }
            if g + 1 < groups {
                x | 0x80
            } else {
                x
            }
        })
        .collect()
}
/// what a terminated group sequence denotes
fn denote_n(g: &[u8]) -> Bits {
    trim(g.iter().flat_map(|x| (0..7).map(move |k| x >> k & 1 == 1)).collect())
}
fn denote_z(g: &[u8]) -> (bool, Bits) {
    let neg = g[0] & 0x40 != 0;
    let mut v: Bits = (0..6).map(|k| g[0] >> k & 1 == 1).collect();
    v.extend(g[1..].iter().flat_map(|x| (0..7).map(move |k| x >> k & 1 == 1)));
    (neg, trim(v))
}
fn zbig(neg: bool, b: &Bits) -> BigInt {
    BigInt::from_biguint(if b.is_empty() { Sign::NoSign } else if neg { Sign::Minus } else { Sign::Plus }, big(b))
}
fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn rbits(r: &mut Rng, max: usize) -> Bits {
    let n = match r.below(8) {
        0 => r.range(0, 16),
        1 => 7 * r.range(0, max / 7),
        2 => (7 * r.range(0, max / 7) + 6).min(max),
        3 => *r.pick(&[31, 32, 33, 62, 63, 64, 65, 127, 128]),
        _ => r.range(0, max),
    };
    if n == 0 {
        return vec![];
    }
    let mut b: Bits = match r.below(6) {
        0 => vec![true; n],
        1 => vec![false; n],
        2 => {
            let mut v = vec![false; n];
            v[0] = true;
            v
        }
        3 => {
            // long runs, so that whole groups are zero or full
            let mut v = vec![];
            let mut bit = true;
            while v.len() < n {
                for _ in 0..r.range(1, 24) {
                    v.push(bit);
                }
                bit = !bit;
            }
            v.truncate(n);
            v
        }
        _ => (0..n).map(|_| r.u64() & 1 == 1).collect(),
    };
    b[n - 1] = true;
    b
}

macro_rules! conv {
    ($c:ident, $v:expr, $exact:expr, $sig:expr, $($t:ident)+) => {$(
        let got = $c.guard(|| <$t>::try_from($v.clone()).ok());
        let want: Option<$t> = $exact.and_then(|x: i128| if x >= $t::MIN as i128 && x <= $t::MAX as i128 { Some(x as $t) } else { None });
        match got {
            Ok(g) => $c.check(g == want, || format!("{}/try_into-{}", $sig, stringify!($t)), || format!("{:?}: {g:?}, expected {want:?}", $v)),
            Err(p) => $c.violation(format!("{}/try_into-panic", $sig), p.0),
        }
    )+};
}

/// one value, everything
fn value(c: &mut Ctx, r: &mut Rng, neg: bool, b: &Bits) {
    let b = &trim(b.clone());
    let exact = small(b).and_then(|x| i128::try_from(x).ok());
    // natural
    {
        let v = N(big(b));
        let want = ref_n(b);
        encode_decode(c, r, "N", &v, &want);
        c.check(v.estimate() == want.len() && v.enc_len() == want.len(), || "N/length".into(), || format!("{} bits: {} vs {}", b.len(), v.estimate(), want.len()));
        conv!(c, v, exact, "N", u8 u16 u32 u64);
        c.check(v.as_inner() == &big(b) && v.clone().into_inner() == big(b) && BigUint::from(v.clone()) == big(b) && *v == big(b) && N::from(big(b)) == v && N::new(big(b)) == v, || "N/inner".into(), || format!("{v:?}"));
        if let Some(x) = exact {
            c.check(v.to_string() == x.to_string() && format!("{v:>45}") == format!("{x:>45}"), || "N/display".into(), || format!("{v} vs {x}"));
        }
        if b.len() < 3000 {
            c.check(v.to_string() == big(b).to_string() && format!("{v:?}").contains(&big(b).to_string()), || "N/display".into(), || format!("{} bits", b.len()));
        }
    }
    {
        let v = Z(zbig(neg, b));
        let want = ref_z(neg, b);
        encode_decode(c, r, "Z", &v, &want);
        c.check(v.estimate() == want.len() && v.enc_len() == want.len(), || "Z/length".into(), || format!("{} bits: {} vs {}", b.len(), v.estimate(), want.len()));
        let ex = exact.map(|x| if neg { -x } else { x });
        conv!(c, v, ex, "Z", u8 u16 u32 u64 i8 i16 i32 i64);
        c.check(v.as_inner() == &zbig(neg, b) && v.clone().into_inner() == zbig(neg, b) && BigInt::from(v.clone()) == zbig(neg, b) && *v == zbig(neg, b) && Z::new(zbig(neg, b)) == v, || "Z/inner".into(), || format!("{v:?}"));
        if let Some(x) = ex {
            c.check(v.to_string() == x.to_string() && format!("{v:+}") == format!("{x:+}"), || "Z/display".into(), || format!("{v} vs {x}"));
        }
        if b.len() < 3000 {
            c.check(format!("{v:?}").contains(&zbig(neg, b).to_string()), || "Z/display".into(), || format!("{} bits", b.len()));
        }
    }
    c.count("values observed", 2);
    c.count(match b.len() { 0..=7 => "magnitude up to 7 bits", 8..=64 => "magnitude 8 to 64 bits", 65..=1024 => "magnitude 65 to 1024 bits", _ => "magnitude over 1024 bits" }, 1);
    c.seen(&ref_z(neg, b));
}

fn encode_decode<T: Encode + Decode + PartialEq + Clone + std::fmt::Debug>(c: &mut Ctx, r: &mut Rng, n: &str, v: &T, want: &[u8]) {
    let enc: Vec<u8> = match c.guard(|| Encode::to_bytes(v)) {
        Ok(b) => b,
        Err(p) => return c.violation(format!("{n}/encode-panic"), p.0),
    };
    c.check(enc == want, || format!("{n}/canonical"), || clip(&format!("{v:?} encodes to {}, shortest form is {}", hex(&enc), hex(want)), 900));
    let term = enc.iter().rposition(|x| x & 0x80 == 0) == Some(enc.len() - 1) && enc.iter().filter(|x| **x & 0x80 == 0).count() == 1;
    c.check(term, || format!("{n}/terminated"), || clip(&hex(&enc), 600));
    let mut w = vec![0xEE];
    let k = v.write_to(&mut w);
    c.check(w[1..] == enc[..] && k == enc.len(), || format!("{n}/write_to"), || clip(&hex(&w), 600));
    decode_is(c, r, n, want, v);
}

fn decode_is<T: Decode + PartialEq + std::fmt::Debug>(c: &mut Ctx, r: &mut Rng, n: &str, groups: &[u8], v: &T) {
    let mut inp = groups.to_vec();
    let k = r.below(4);
    inp.extend(r.spicy_bytes(k));
    let kind = *r.pick(&KINDS);
    match c.guard(|| {
        let mut p = AnyP::new(kind, &inp);
        (T::parse(&mut p), p.remainder())
    }) {
        Ok((Ok(x), left)) => {
            c.check(x == *v, || format!("{n}/decode-value"), || clip(&format!("{} decodes to {x:?}, denotes {v:?}", hex(groups)), 900));
            c.check(left == k, || format!("{n}/decode-consumed"), || format!("{} left {left}, {k} follow", clip(&hex(groups), 400)));
        }
        Ok((Err(e), _)) => c.violation(format!("{n}/decode-rejects"), clip(&format!("{}: {e}", hex(groups)), 600)),
        Err(p) => c.violation(format!("{n}/decode-panic"), clip(&format!("{}: {}", hex(groups), p.0), 600)),
    }
}

fn order(c: &mut Ctx, r: &mut Rng) {
    let a = rbits(r, 200);
    let b = if r.chance(1, 3) { a.clone() } else { rbits(r, 200) };
    let (na, nb) = (N(big(&a)), N(big(&b)));
    c.check(na.cmp(&nb) == big(&a).cmp(&big(&b)) && (na == nb) == (a == b) && na.partial_cmp(&nb) == Some(big(&a).cmp(&big(&b))), || "N/order".into(), || format!("{na} {nb}"));
    if a == b {
        c.check(hash_of(&na) == hash_of(&nb), || "N/hash".into(), || format!("{na}"));
    }
    let (sa, sb) = (r.chance(1, 2), r.chance(1, 2));
    let (za, zb) = (Z(zbig(sa, &a)), Z(zbig(sb, &b)));
    c.check(za.cmp(&zb) == zbig(sa, &a).cmp(&zbig(sb, &b)) && (za == zb) == (zbig(sa, &a) == zbig(sb, &b)), || "Z/order".into(), || format!("{za} {zb}"));
    // order of small numbers against machine integers
    if let (Some(x), Some(y)) = (small(&a), small(&b)) {
        let (x, y) = (if sa { -(x as i128) } else { x as i128 }, if sb { -(y as i128) } else { y as i128 });
        if a.len() < 127 && b.len() < 127 {
            c.check(za.cmp(&zb) == x.cmp(&y), || "Z/order-small".into(), || format!("{x} {y}"));
        }
    }
    c.seen(format!("o{:?}", (&a, &b)).as_bytes());
}

/// arbitrary terminated group sequences, canonical or not
fn groups(c: &mut Ctx, r: &mut Rng) {
    let n = match r.below(5) {
        0 => 1,
        1 => r.range(1, 3),
        2 => r.range(1, 80),
        _ => r.range(1, 14),
    };
    let mut g = r.spicy_bytes(n);
    if r.chance(1, 3) {
        let z = r.range(0, n);
        for x in g[n - z..].iter_mut() {
            *x = 0;
        }
    }
    for x in g.iter_mut() {
        *x |= 0x80;
    }
    g[n - 1] &= 0x7f;
    let b = denote_n(&g);
    decode_is(c, r, "N", &g, &N(big(&b)));
    let (neg, b) = denote_z(&g);
    decode_is(c, r, "Z", &g, &Z(zbig(neg, &b)));
    c.count(if n > 1 && g[n - 1] == 0 { "non-canonical sequences decoded" } else { "canonical sequences decoded" }, 1);
    c.seen(&g);
    // without its last group it must not decode
    if n > 1 || r.chance(1, 8) {
        let cut = &g[..n - 1];
        for kind in KINDS {
            for (nm, res) in [("N", c.guard(|| N::parse(&mut AnyP::new(kind, cut)).is_ok())), ("Z", c.guard(|| Z::parse(&mut AnyP::new(kind, cut)).is_ok()))] {
                match res {
                    Ok(ok) => c.check(!ok, || format!("{nm}/unterminated-accepted"), || hex(cut)),
                    Err(p) => c.violation(format!("{nm}/unterminated-panic"), format!("{}: {}", hex(cut), p.0)),
                }
            }
        }
        c.count("unterminated sequences refused", 1);
    }
}

fn main() {
    let mut c = Ctx::from_args("C23");
    let span = c.n(70, 1100);
    c.cases("small-integers", span, |c, r| {
        let ix: u128 = c.label().rsplit('#').next().unwrap().parse().unwrap();
        for x in ix * 1000..(ix + 1) * 1000 {
            let neg = r.chance(1, 2);
            value(c, r, neg, &bits_of(x));
        }
    });
    c.cases("powers", c.n(700, 9000), |c, r| {
        let k: usize = c.label().rsplit('#').next().unwrap().parse().unwrap();
        let mut p = vec![false; k];
        p.push(true);
        let mut plus = p.clone();
        plus[0] = true;
        for b in [&vec![true; k], &p, &plus] {
            for neg in [false, true] {
                value(c, r, neg, b);
            }
        }
    });
    c.cases("values", c.n(30_000, 1_000_000), |c, r| {
        let b = rbits(r, 500);
        let neg = r.chance(1, 2);
        value(c, r, neg, &b);
    });
    c.cases("large", c.n(300, 6_000), |c, r| {
        let max = if r.chance(1, 10) { 60_000 } else { 6_000 };
        let b = rbits(r, max);
        let neg = r.chance(1, 2);
        value(c, r, neg, &b);
    });
    c.cases("machine-boundaries", c.n(1500, 20_000), |c, r| {
        let w = *r.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64]);
        let x = (1u128 << w).wrapping_add(r.below(5) as u128).wrapping_sub(2);
        let neg = r.chance(1, 2);
        value(c, r, neg, &bits_of(x));
    });
    c.cases("groups", c.n(60_000, 2_000_000), groups);
    c.cases("order", c.n(20_000, 500_000), order);
    c.finish()
}
