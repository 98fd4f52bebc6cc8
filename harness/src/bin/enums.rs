//! C14: tags and variants correspond one to one, at every tag width.

use mon::hist::ints_in;
use mon::ops::{AnyP, Kind, KINDS};
use mon::prng::Rng;
use mon::rep::{hex, Ctx};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use tedium::conv::EncodeLength;
use tedium::parse::error::{InternalError, ParseError, TagError, TagType, TokenError};
use tedium::*;

/// the tag type seen as a number
trait Back: TagType + Encode + Decode + Copy + 'static + Hash + Eq {
    const W: usize;
    fn u(self) -> u64;
    fn of(x: u64) -> Self;
    /// the tag error inside a parse error, as (its width, the rendering)
    fn of_err(e: &ParseError) -> Option<String>;
    fn take<T, P: Parser>(p: &mut P, kind: usize, v: &[u64]) -> Result<u64, ParseError>;
}
macro_rules! back {
    ($t:ident, $v:ident) => {
        impl Back for $t {
            const W: usize = std::mem::size_of::<$t>();
            fn u(self) -> u64 {
                self as u64
            }
            fn of(x: u64) -> Self {
                x as $t
            }
            fn of_err(e: &ParseError) -> Option<String> {
                match e {
                    ParseError::Token(TokenError::$v(t)) => Some(format!("{t:?}")),
                    _ => None,
                }
            }
            fn take<T, P: Parser>(p: &mut P, kind: usize, v: &[u64]) -> Result<u64, ParseError> {
                let l: Vec<$t> = v.iter().map(|x| *x as $t).collect();
                Ok(match kind {
                    0 => p.take_tagword::<T, $t, _>(&l[..])?,
                    1 => p.take_tagword::<T, $t, _>(l)?,
                    2 => p.take_tagword::<T, $t, _>(&l)?,
                    3 => p.take_tagword::<T, $t, _>(l.into_iter().collect::<HashSet<$t>>())?,
                    4 if l.len() == 3 => p.take_tagword::<T, $t, _>([l[0], l[1], l[2]])?,
                    5 if l.len() == 3 => p.take_tagword::<T, $t, _>(&[l[0], l[1], l[2]])?,
                    4 if l.len() == 1 => p.take_tagword::<T, $t, _>([l[0]])?,
                    5 if l.len() == 1 => p.take_tagword::<T, $t, _>(&[l[0]])?,
                    4 if l.len() == 2 => p.take_tagword::<T, $t, _>([l[0], l[1]])?,
                    5 if l.len() == 2 => p.take_tagword::<T, $t, _>(&[l[0], l[1]])?,
                    4 if l.len() == 40 => p.take_tagword::<T, $t, _>(<[$t; 40]>::try_from(l).unwrap())?,
                    5 if l.len() == 40 => p.take_tagword::<T, $t, _>(&<[$t; 40]>::try_from(l).unwrap())?,
                    4 if l.is_empty() => p.take_tagword::<T, $t, [$t; 0]>([])?,
                    5 if l.is_empty() => p.take_tagword::<T, $t, &[$t; 0]>(&[])?,
                    _ => p.take_tagword::<T, $t, _>(&l[..])?,
                } as u64)
            }
        }
    };
}
back!(u8, InvalidTagU8);
back!(u16, InvalidTagU16);
back!(u32, InvalidTagU30);

/// a declared enumeration with the table it was declared from
trait CE: Encode + Decode + Copy + Eq + Hash + std::fmt::Debug + TryFrom<<Self as CE>::B, Error = TagError<<Self as CE>::B>> + tedium::conv::len::FixedLength + 'static {
    type B: Back;
    const NAME: &'static str;
    fn table() -> Vec<(u64, &'static str, Self)>;
    fn tagval(&self) -> u64;
    fn cast(self) -> u64;
    fn list() -> Vec<u64>;
    fn valid(t: u64) -> bool;
    fn name_of(t: u64) -> Option<&'static str>;
}
macro_rules! cenum {
    ($n:ident, $b:ident, { $($v:ident = $d:expr),+ }) => {
        tedium::cstyle!($n, $b, { $($v = $d),+ });
        impl CE for $n {
            type B = $b;
            const NAME: &'static str = stringify!($n);
            fn table() -> Vec<(u64, &'static str, Self)> { vec![$(($d as u64, stringify!($v), $n::$v)),+] }
            fn tagval(&self) -> u64 { self.get_tagval() as u64 }
            fn cast(self) -> u64 { self as $b as u64 }
            fn list() -> Vec<u64> { $n::iter_tags().map(|x| x as u64).collect() }
            fn valid(t: u64) -> bool { $n::is_valid_tag(t as $b) }
            fn name_of(t: u64) -> Option<&'static str> { $n::get_name(t as $b) }
        }
    };
}
include!("../gen_enums.rs.inc");
cenum!(One8, u8, { Only = 7 });
cenum!(Zero16, u16, { Nil = 0 });
cenum!(Top32, u32, { Max = 0xffffffff });
cenum!(Sparse8, u8, { Two = 2, Three = 3, Five = 5, Seven = 7, Top = 255 });
cenum!(Swap16, u16, { Lo = 0x0001, Hi = 0x0100 });
cenum!(Swap32, u32, { A = 0x00000001, B = 0x00000100, C = 0x00010000, D = 0x01000000 });

fn be(x: u64, w: usize) -> Vec<u8> {
    x.to_be_bytes()[8 - w..].to_vec()
}
fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// records exactly what is fed to a hasher
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn tape<T: Hash + ?Sized>(x: &T) -> Vec<u8> {
    let mut t = Tape::default();
    x.hash(&mut t);
    t.0
}

/// "an error naming that tag and the declared ones"
fn judge_err<B: Back>(c: &mut Ctx, sig: &str, tag: u64, declared: &BTreeSet<u64>, dbg: &str, shown: &str) {
    let v = ints_in(dbg);
    let rest: BTreeSet<u64> = v.iter().copied().filter(|x| *x != tag).collect();
    c.check(v.contains(&tag), || format!("{sig}/error-tag"), || format!("tag {tag:#x} is not in {dbg}"));
    c.check(rest == *declared, || format!("{sig}/error-declared"), || format!("declared tags {declared:x?} but the error lists {rest:x?}"));
    let hex_ok = shown.to_lowercase().contains(&format!("{tag:x}"));
    c.check(hex_ok || shown.contains(&tag.to_string()), || format!("{sig}/error-shown"), || format!("tag {tag:#x} is not in '{shown}'"));
    c.count("rejections whose error was checked", 1);
}

/// everything known about tag `t` of enumeration `E`
fn cstyle_tag<E: CE>(c: &mut Ctx, r: &mut Rng, t: u64, table: &[(u64, &'static str, E)], declared: &BTreeSet<u64>) {
    let w = E::B::W;
    let hit = table.iter().find(|x| x.0 == t);
    let sig = |k: &str| format!("cstyle/u{}/{k}", w * 8);
    let n = E::NAME;
    c.check(E::valid(t) == hit.is_some(), || sig("is_valid_tag"), || format!("{n} tag {t:#x}"));
    c.check(E::name_of(t) == hit.map(|x| x.1), || sig("get_name"), || format!("{n} tag {t:#x}: {:?}", E::name_of(t)));
    match (c.guard(|| E::try_from(E::B::of(t))), hit) {
        (Ok(Ok(v)), Some(x)) => c.check(v == x.2, || sig("try_from-variant"), || format!("{n} tag {t:#x}: {v:?}, declared {}", x.1)),
        (Ok(Ok(v)), None) => c.violation(sig("try_from-accepts"), format!("{n} tag {t:#x}: {v:?}")),
        (Ok(Err(e)), Some(x)) => c.violation(sig("try_from-rejects"), format!("{n} tag {t:#x} ({}): {e:?}", x.1)),
        (Ok(Err(e)), None) => {
            let (d, s) = (format!("{e:?}"), e.to_string());
            judge_err::<E::B>(c, &sig("try_from"), t, declared, &d, &s);
            let p: ParseError = e.into();
            c.check(E::B::of_err(&p).is_some(), || sig("promote"), || format!("{n} tag {t:#x}: {p:?}"));
        }
        (Err(p), _) => c.violation(sig("try_from-panic"), format!("{n} tag {t:#x}: {}", p.0)),
    }
    let mut input = be(t, w);
    let junk = r.below(4);
    input.extend(r.bytes(junk));
    let kind = KINDS[(t as usize).wrapping_add(r.below(3)) % 3];
    let g = c.guard(|| {
        let mut p = AnyP::new(kind, &input);
        let v = E::parse(&mut p);
        (v, p.remainder())
    });
    match (g, hit) {
        (Ok((Ok(v), left)), Some(x)) => {
            c.check(v == x.2, || sig("decode-variant"), || format!("{n} {}: {v:?}, declared {}", hex(&input), x.1));
            c.check(left == junk, || sig("decode-consumed"), || format!("{n} {}: {left} left", hex(&input)));
        }
        (Ok((Ok(v), _)), None) => c.violation(sig("decode-accepts"), format!("{n} {}: {v:?}", hex(&input))),
        (Ok((Err(e), _)), Some(x)) => c.violation(sig("decode-rejects"), format!("{n} {} ({}): {e}", hex(&input), x.1)),
        (Ok((Err(e), _)), None) => match E::B::of_err(&e) {
            Some(d) => judge_err::<E::B>(c, &sig("decode"), t, declared, &d, &e.to_string()),
            None => c.violation(sig("decode-error-kind"), format!("{n} {}: {e:?}", hex(&input))),
        },
        (Err(p), _) => c.violation(sig("decode-panic"), format!("{n} {}: {}", hex(&input), p.0)),
    }
    c.seen(format!("{n}/{t}").as_bytes());
    c.count(if hit.is_some() { "declared tags observed" } else { "undeclared tags observed" }, 1);
}

fn cstyle_all<E: CE>(c: &mut Ctx) {
    let table = E::table();
    let declared: BTreeSet<u64> = table.iter().map(|x| x.0).collect();
    let w = E::B::W;
    let n = E::NAME;
    let sig = |k: &str| format!("cstyle/u{}/{k}", w * 8);
    // the variants among themselves
    c.cases(&format!("{n}-variants"), 1, |c, _| {
        let mut l = E::list();
        let total = l.len();
        l.sort_unstable();
        l.dedup();
        c.check(l.len() == total && l.iter().copied().collect::<BTreeSet<_>>() == declared, || sig("iter_tags"), || format!("{n}: {l:x?}"));
        c.check(<E as tedium::conv::len::FixedLength>::LEN == w, || sig("LEN"), || format!("{n}: {}", <E as tedium::conv::len::FixedLength>::LEN));
        for (i, x) in table.iter().enumerate() {
            let want = be(x.0, w);
            let b: Vec<u8> = Encode::to_bytes(&x.2);
            c.check(b == want, || sig("encode"), || format!("{n}::{} -> {}", x.1, hex(&b)));
            c.check(x.2.tagval() == x.0, || sig("get_tagval"), || format!("{n}::{} -> {:#x}", x.1, x.2.tagval()));
            c.check(x.2.cast() == x.0, || sig("cast"), || format!("{n}::{} -> {:#x}", x.1, x.2.cast()));
            c.check(x.2.enc_len() == w, || sig("enc_len"), || format!("{n}::{} -> {}", x.1, x.2.enc_len()));
            c.check(format!("{:?}", x.2).contains(x.1), || sig("debug"), || format!("{n}::{} -> {:?}", x.1, x.2));
            for y in &table[i + 1..] {
                if x.2 == y.2 || tape(&x.2) == tape(&y.2) || hash_of(&x.2) == hash_of(&y.2) {
                    c.violation(sig("distinct"), format!("{n}: {} and {}", x.1, y.1));
                }
            }
            c.check(x.2 == x.2.clone() && hash_of(&x.2) == hash_of(&x.2.clone()), || sig("reflexive"), || x.1.to_string());
        }
        let set: HashSet<E> = table.iter().map(|x| x.2).collect();
        c.check(set.len() == table.len(), || sig("hashset"), || format!("{n}: {}", set.len()));
        c.seen(format!("{n}/variants").as_bytes());
    });
    // every tag of one and two bytes; for four bytes the neighbourhood of the declared ones
    let all: Vec<u64> = if w < 4 {
        (0..1u64 << (8 * w)).collect()
    } else {
        let mut v = vec![];
        for t in &declared {
            let x = *t as u32;
            let k = [x, x.wrapping_add(1), x.wrapping_sub(1), x.swap_bytes(), x.rotate_left(8), x.rotate_right(8), x & 0xff, x & 0xffff, x >> 8, x >> 16, x | 0x80000000, x ^ 0x40000000, x & 0x3fffffff, !x];
            v.extend(k.iter().map(|x| *x as u64));
            v.extend((0..32).map(|b| (x ^ (1 << b)) as u64));
        }
        v.sort_unstable();
        v.dedup();
        v
    };
    let chunk = 256;
    let chunks = (all.len() + chunk - 1) / chunk;
    let mut at = 0;
    c.cases(&format!("{n}-tags"), chunks as u64, |c, r| {
        // replay of one chunk: its index is in the label
        let ix: usize = c.label().rsplit('#').next().unwrap().parse().unwrap();
        at = ix * chunk;
        for t in &all[at..(at + chunk).min(all.len())] {
            cstyle_tag::<E>(c, r, *t, &table, &declared);
        }
    });
    let k = c.n(300, 20_000);
    c.cases(&format!("{n}-random"), k, |c, r| {
        let t = r.u64() & if w == 4 { 0xffff_ffff } else { (1 << (8 * w)) - 1 };
        cstyle_tag::<E>(c, r, t, &table, &declared);
        // too few bytes for a tag: an error, and not one about a tag
        if w > 1 {
            let short = r.bytes(r.clone().below(w));
            for kind in KINDS {
                match c.guard(|| E::parse(&mut AnyP::new(kind, &short))) {
                    Ok(Ok(v)) => c.violation(sig("decode-short"), format!("{n} {}: {v:?}", hex(&short))),
                    Ok(Err(e)) => c.check(E::B::of_err(&e).is_none(), || sig("decode-short-error"), || format!("{n} {}: {e:?}", hex(&short))),
                    Err(p) => c.violation(sig("decode-panic"), format!("{n} {}: {}", hex(&short), p.0)),
                }
            }
        }
    });
}

// ------------------------------------------------------------- tagged unions

trait DE: Encode + Decode + Clone + PartialEq + Hash + std::fmt::Debug + tedium::conv::len::Estimable + 'static {
    type B: Back;
    const NAME: &'static str;
    fn table() -> Vec<(u64, &'static str)>;
    fn variant(&self) -> &'static str;
    fn tagval(&self) -> u64;
    fn list() -> Vec<u64>;
    fn valid(t: u64) -> bool;
    fn name_of(t: u64) -> Option<&'static str>;
    /// a payload encoding for that variant, from `r`
    fn payload(t: u64, r: &mut Rng) -> Vec<u8>;
}
macro_rules! de {
    ($n:ident, $b:ident, { $($d:expr => $v:ident),+ $(,)? }, $pay:expr) => {
        impl DE for $n {
            type B = $b;
            const NAME: &'static str = stringify!($n);
            fn table() -> Vec<(u64, &'static str)> { vec![$(($d as u64, stringify!($v))),+] }
            fn variant(&self) -> &'static str { match self { $($n::$v(_) => stringify!($v)),+ } }
            fn tagval(&self) -> u64 { self.get_tagval() as u64 }
            fn list() -> Vec<u64> { $n::iter_tags().map(|x| x as u64).collect() }
            fn valid(t: u64) -> bool { $n::is_valid_tag(t as $b) }
            fn name_of(t: u64) -> Option<&'static str> { $n::get_name(t as $b) }
            fn payload(t: u64, r: &mut Rng) -> Vec<u8> { let f: fn(u64, &mut Rng) -> Vec<u8> = $pay; f(t, r) }
        }
    };
}
fn pick(r: &mut Rng, n: usize) -> Vec<u8> {
    // few distinct payloads, so that variants with equal payloads meet
    let b = *r.pick(&[0u8, 1, 7, 255]);
    vec![b; n]
}

tedium::data!(Same8, u8, same8, {
    0 => A (pub u8), 1 => B (pub u8), 2 => C (pub u8), 254 => D (pub u8), 255 => E (pub u8),
    16 => U (), 17 => V (), 32 => W { pub x: u8 }, 33 => X { pub x: u8 },
});
de!(Same8, u8, { 0 => A, 1 => B, 2 => C, 254 => D, 255 => E, 16 => U, 17 => V, 32 => W, 33 => X }, |t, r| if t == 16 || t == 17 { vec![] } else { pick(r, 1) });
tedium::data!(Same16, u16, same16, {
    0x0001 => A (pub u16), 0x0100 => B (pub u16), 0xffff => C (pub u16), 0x00ff => D (pub u16), 0 => Z (),
});
de!(Same16, u16, { 0x0001 => A, 0x0100 => B, 0xffff => C, 0x00ff => D, 0 => Z }, |t, r| if t == 0 { vec![] } else { pick(r, 2) });
tedium::data!(Same32, u32, same32, {
    0x00000001 => A (pub u8, pub u8), 0x01000000 => B (pub u8, pub u8), 0x00010000 => C { pub p: u8, pub q: u8 }, 0xffffffff => D (),
});
de!(Same32, u32, { 0x00000001 => A, 0x01000000 => B, 0x00010000 => C, 0xffffffff => D }, |t, r| if t == 0xffffffff { vec![] } else { pick(r, 2) });
tedium::data!(Lone8, u8, lone8, { 42 => Only (pub Dynamic<u8, Bytes>) });
de!(Lone8, u8, { 42 => Only }, |_, r| { let n = r.below(5); let mut v = vec![n as u8]; v.extend(r.bytes(n)); v });
tedium::data!(Mixed16, u16, mixed16, {
    513 => Nat (pub N), 2 => Text (pub Dynamic<u16, std::string::String>), 258 => Opt (pub Option<u32>), 65281 => Rec { pub a: bool, pub b: i64 },
    3 => Unit,
    4 => Inner (pub Same8),
});
de!(Mixed16, u16, { 513 => Nat, 2 => Text, 258 => Opt, 65281 => Rec, 3 => Unit, 4 => Inner }, |t, r| match t {
    513 => { let mut v = vec![0x81 | r.u8(); r.below(3)]; v.push(1 + (r.u8() & 0x3f)); v }
    2 => { let n = r.below(4); let mut v = vec![0, n as u8]; v.extend(vec![b'x'; n]); v }
    258 => if r.chance(1, 2) { vec![0] } else { let mut v = vec![255]; v.extend(r.bytes(4)); v },
    65281 => { let mut v = vec![if r.chance(1, 2) { 0 } else { 255 }]; v.extend(r.bytes(8)); v }
    3 => vec![],
    _ => vec![1, r.u8()],
});

fn data_all<E: DE>(c: &mut Ctx) {
    let table = E::table();
    let declared: BTreeSet<u64> = table.iter().map(|x| x.0).collect();
    let w = E::B::W;
    let n = E::NAME;
    let sig = |k: &str| format!("data/u{}/{k}", w * 8);
    c.cases(&format!("{n}-listing"), 1, |c, _| {
        let mut l = E::list();
        let total = l.len();
        l.sort_unstable();
        l.dedup();
        c.check(l.len() == total && l.iter().copied().collect::<BTreeSet<_>>() == declared, || sig("iter_tags"), || format!("{n}: {l:x?}"));
        if w < 4 {
            for t in 0..1u64 << (8 * w) {
                let hit = table.iter().find(|x| x.0 == t);
                c.check(E::valid(t) == hit.is_some(), || sig("is_valid_tag"), || format!("{n} {t:#x}"));
                c.check(E::name_of(t) == hit.map(|x| x.1), || sig("get_name"), || format!("{n} {t:#x}"));
            }
        }
        c.seen(format!("{n}/listing").as_bytes());
    });
    let k = c.n(1500, 60_000);
    let mut seen: Vec<(u64, Vec<u8>, E)> = vec![];
    c.cases(&format!("{n}-tags"), k, |c, r| {
        let t = match r.below(6) {
            0 | 1 | 2 => table[r.below(table.len())].0,
            3 => {
                let x = table[r.below(table.len())].0 as u32;
                let m = if w == 4 { 0xffff_ffff } else { (1u64 << (8 * w)) - 1 };
                *r.pick(&[x.wrapping_add(1) as u64 & m, x.wrapping_sub(1) as u64 & m, be(x as u64, w).iter().fold(0, |a, b| a << 8 | *b as u64), (x ^ 1 << (x as usize % (8 * w))) as u64 & m, (x as u64).swap_bytes() >> (64 - 8 * w)])
            }
            _ => r.u64() & if w == 4 { 0xffff_ffff } else { (1 << (8 * w)) - 1 },
        };
        let hit = table.iter().find(|x| x.0 == t);
        c.check(E::valid(t) == hit.is_some(), || sig("is_valid_tag"), || format!("{n} {t:#x}"));
        c.check(E::name_of(t) == hit.map(|x| x.1), || sig("get_name"), || format!("{n} {t:#x}"));
        let mut enc = be(t, w);
        let pay = if hit.is_some() { E::payload(t, r) } else { r.bytes(4) };
        enc.extend(&pay);
        let mut input = enc.clone();
        let junk = r.below(3);
        input.extend(r.bytes(junk));
        let kind = *r.pick(&KINDS);
        let g = c.guard(|| {
            let mut p = AnyP::new(kind, &input);
            let v = E::parse(&mut p);
            (v, p.remainder())
        });
        match (g, hit) {
            (Ok((Ok(v), left)), Some(x)) => {
                c.check(v.variant() == x.1, || sig("decode-variant"), || format!("{n} {}: {v:?}, declared {}", hex(&input), x.1));
                c.check(left == junk, || sig("decode-consumed"), || format!("{n} {}: {left} left, {junk} follow", hex(&input)));
                c.check(v.tagval() == t, || sig("get_tagval"), || format!("{n} {}: {:#x}", hex(&input), v.tagval()));
                let b: Vec<u8> = Encode::to_bytes(&v);
                c.check(b == enc, || sig("encode"), || format!("{n} {} -> {}", hex(&enc), hex(&b)));
                c.check(v.estimate() == enc.len(), || sig("estimate"), || format!("{n} {}: {}", hex(&enc), v.estimate()));
                c.check(!format!("{v:?}").is_empty(), || sig("debug"), String::new);
                // against the variants met before
                for (u, q, o) in &seen {
                    let same = *u == t && *q == pay;
                    c.check((v == *o) == same, || sig("eq"), || format!("{n}: {v:?} vs {o:?}"));
                    if same {
                        c.check(hash_of(&v) == hash_of(o), || sig("hash-equal"), || format!("{n}: {v:?}"));
                    } else {
                        c.check(tape(&v) != tape(o) && hash_of(&v) != hash_of(o), || sig("hash-distinct"), || format!("{n}: {v:?} vs {o:?} hash alike"));
                    }
                    c.count("variant pairs compared", 1);
                }
                if seen.len() < 40 {
                    seen.push((t, pay.clone(), v));
                } else {
                    let at = r.below(40);
                    seen[at] = (t, pay.clone(), v);
                }
            }
            (Ok((Ok(v), _)), None) => c.violation(sig("decode-accepts"), format!("{n} {}: {v:?}", hex(&input))),
            (Ok((Err(e), _)), Some(x)) => c.violation(sig("decode-rejects"), format!("{n} {} ({}): {e}", hex(&input), x.1)),
            (Ok((Err(e), _)), None) => match E::B::of_err(&e) {
                Some(d) => judge_err::<E::B>(c, &sig("decode"), t, &declared, &d, &e.to_string()),
                None => c.violation(sig("decode-error-kind"), format!("{n} {}: {e:?}", hex(&input))),
            },
            (Err(p), _) => c.violation(sig("decode-panic"), format!("{n} {}: {}", hex(&input), p.0)),
        }
        c.seen(format!("{n}/{t}/{}", hex(&pay)).as_bytes());
        c.count(if hit.is_some() { "declared tags observed" } else { "undeclared tags observed" }, 1);
        c.sample(|| format!("{n} {}", hex(&input)));
    });
}

/// the tag-reading primitive with every kind of validator
fn tagword<B: Back>(c: &mut Ctx, r: &mut Rng) {
    let w = B::W;
    let m = if w == 4 { 0xffff_ffff } else { (1u64 << (8 * w)) - 1 };
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 3, 12, 40]);
    let mut v: Vec<u64> = (0..n).map(|_| if r.chance(1, 2) { r.below(6) as u64 } else { r.u64() & m }).collect();
    if r.chance(1, 6) && n > 1 {
        v[1] = v[0];
    }
    let t = if n > 0 && r.chance(1, 2) { v[r.below(n)] } else if r.chance(1, 2) { r.below(6) as u64 } else { r.u64() & m };
    let kind = r.below(6);
    let pk: Kind = *r.pick(&KINDS);
    let sig = |k: &str| format!("tagword/u{}/validator{kind}/{k}", w * 8);
    let mut input = be(t, w);
    input.extend(r.bytes(2));
    let g = c.guard(|| {
        let mut p = AnyP::new(pk, &input);
        (B::take::<Kind, _>(&mut p, kind, &v), p.remainder())
    });
    c.seen(format!("tw/{w}/{kind}/{t}/{v:?}").as_bytes());
    match g {
        Ok((Ok(x), left)) => c.check(x == t && v.contains(&t) && left == 2, || sig("accepts"), || format!("{t:#x} of {v:x?}: {x:#x}, {left} left")),
        Ok((Err(e), _)) => {
            if v.contains(&t) {
                c.violation(sig("rejects"), format!("{t:#x} of {v:x?}: {e}"));
            } else if n == 0 {
                c.check(matches!(e, ParseError::Internal(InternalError::NoValidTags)), || sig("none-valid"), || format!("{e:?}"));
            } else {
                match B::of_err(&e) {
                    Some(d) => judge_err::<B>(c, &sig("error"), t, &v.iter().copied().collect(), &d, &e.to_string()),
                    None => c.violation(sig("error-kind"), format!("{e:?}")),
                }
            }
        }
        Err(p) => c.violation(sig("panic"), format!("{t:#x} of {v:x?}: {}", p.0)),
    }
}

fn main() {
    let mut c = Ctx::from_args("C14");
    macro_rules! cs { ($($t:ident)+) => { $( cstyle_all::<$t>(&mut c); )+ } }
    cs!(Full8 Holes8 Many16 Edge16 Many32 Edge32 One8 Zero16 Top32 Sparse8 Swap16 Swap32);
    macro_rules! ds { ($($t:ident)+) => { $( data_all::<$t>(&mut c); )+ } }
    ds!(Same8 Same16 Same32 Lone8 Mixed16);
    let n = c.n(4000, 200_000);
    c.cases("tagword-u8", n, tagword::<u8>);
    c.cases("tagword-u16", n, tagword::<u16>);
    c.cases("tagword-u32", n, tagword::<u32>);
    c.finish()
}
