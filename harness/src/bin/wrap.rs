//! C22: wrappers return what was put in, compare, order, hash, iterate and
//! display as their contents, expose mutation, and add only their own bytes.

use mon::ops::{AnyP, KINDS};
use mon::prng::{hinted, roomy, Rng};
use mon::rep::{hex, Ctx};
use std::mem::replace;
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::dynamic::LenPref;
use tedium::*;

/// everything a `Hash` implementation feeds to its hasher
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn tape<T: Hash>(x: &T) -> Vec<u8> {
    let mut t = Tape::default();
    x.hash(&mut t);
    t.0
}

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static SERIAL: Cell<u64> = const { Cell::new(0) };
}

/// a content that knows how many of its kind are alive and which one it is
struct Tr(u32, u64);
impl Tr {
    fn new(v: u32) -> Tr {
        LIVE.with(|l| l.set(l.get() + 1));
        Tr(v, SERIAL.with(|s| {
            s.set(s.get() + 1);
            s.get()
        }))
    }
}
impl Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tr({})", self.0)
    }
}
impl Clone for Tr {
    fn clone(&self) -> Tr {
        Tr::new(self.0)
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        self.0 == o.0
    }
}
impl Default for Tr {
    fn default() -> Tr {
        Tr::new(77)
    }
}
impl Encode for Tr {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        self.0.write_to(buf)
    }
}
impl FixedLength for Tr {
    const LEN: usize = 4;
}

/// an order that is not the derived one, with incomparable elements: a wrapper
/// that recomputed instead of delegating would show
#[derive(Clone, Debug, PartialEq)]
struct Odd(i8);
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> {
        if (self.0 ^ o.0) & 1 != 0 {
            None
        } else {
            Some(o.0.cmp(&self.0))
        }
    }
}
impl Encode for Odd {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        (self.0 as i8).write_to(buf)
    }
}
impl FixedLength for Odd {
    const LEN: usize = 1;
}

trait Gen: Sized {
    fn gen(r: &mut Rng) -> Self;
    /// a value close to `self`, so that equal and nearly-equal pairs occur
    fn near(&self, r: &mut Rng) -> Self;
}
macro_rules! gen {
    ($t:ty, $r:ident => $e:expr) => {
        impl Gen for $t {
            fn gen($r: &mut Rng) -> Self {
                $e
            }
            fn near(&self, r: &mut Rng) -> Self {
                if r.chance(1, 2) {
                    self.clone()
                } else {
                    Self::gen(r)
                }
            }
        }
    };
}
gen!(u16, r => if r.chance(1, 2) { r.below(4) as u16 } else { r.u64() as u16 });
gen!(i8, r => r.u8() as i8);
gen!(u8, r => if r.chance(1, 2) { r.below(3) as u8 } else { r.u8() });
gen!(i16, r => if r.chance(1, 2) { r.below(5) as i16 - 2 } else { r.u64() as i16 });
gen!(u32, r => if r.chance(1, 2) { r.below(3) as u32 } else { r.u64() as u32 });
gen!(i32, r => if r.chance(1, 2) { r.below(5) as i32 - 2 } else { r.u64() as i32 });
gen!(u64, r => if r.chance(1, 2) { r.below(3) as u64 } else { r.u64() });
gen!(i64, r => if r.chance(1, 2) { r.below(5) as i64 - 2 } else { r.u64() as i64 });
gen!((), _r => ());
gen!(bool, r => r.chance(1, 2));
gen!(f64, r => *r.pick(&[0.0, -0.0, 1.5, -2.0, f64::NAN, f64::INFINITY, 1e300]));
gen!(String, r => { let n = r.long(20); (0..n).map(|_| *r.pick(&['a', 'b', 'Z', 'é', '🦀', ' ', '0'])).collect() });
gen!(Vec<u8>, r => { let n = r.long(20); r.spicy_bytes(n) });
gen!(Bytes, r => { let n = r.long(20); Bytes::from(r.spicy_bytes(n)) });
gen!(Option<u8>, r => if r.chance(1, 3) { None } else { Some(r.below(3) as u8) });
gen!(Sequence<u16>, r => { let n = r.long(6).min(1100); (0..n).map(|_| r.below(3) as u16).collect::<Vec<u16>>().into() });
gen!(FixedBytes<3>, r => FixedBytes::from_array([r.below(2) as u8, r.below(2) as u8, r.u8()]));
gen!(FixedBytes<0>, _r => FixedBytes::from_array([]));
gen!(FixedBytes<300>, r => { let mut a = [7; 300]; for _ in 0..4 { a[r.below(300)] = r.u8(); } FixedBytes::from_array(a) });
gen!(FixedBytes<520>, r => { let mut a = [7; 520]; for _ in 0..4 { a[r.below(520)] = r.u8(); } FixedBytes::from_array(a) });
gen!(N, r => N::from(num_bigint::BigUint::from(r.u64() >> r.below(64))));
gen!(Z, r => Z(num_bigint::BigInt::from((r.u64() as i64) >> r.below(64))));
gen!(Odd, r => Odd(r.below(6) as i8 - 3));
gen!(Tr, r => Tr::new(r.below(5) as u32));

const FILL: usize = 3;

/// bytes the wrapper adds before and after its contents
type Added = (fn(usize) -> Vec<u8>, usize);

fn draw<T: Gen + EncodeLength>(r: &mut Rng, max: usize) -> T {
    loop {
        let v = T::gen(r);
        if v.enc_len() <= max {
            return v;
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn common<W, T>(c: &mut Ctx, r: &mut Rng, name: &str, mk: &[(&str, &dyn Fn(T) -> W)], get: &[(&str, &dyn Fn(&W) -> *const T)], set: &[(&str, &dyn Fn(&mut W, T) -> T)], into: &[(&str, &dyn Fn(W) -> T)], added: Added)
where
    T: Gen + Clone + Debug + Encode + EncodeLength + 'static,
    W: Clone + Encode + EncodeLength,
{
    // what a one-byte prefix cannot announce is C21's subject
    let max = if name.starts_with("Dynamic<u8") { 255 } else { usize::MAX };
    let live0 = LIVE.with(|l| l.get());
    {
        let v = draw::<T>(r, max);
        let body: Vec<u8> = Encode::to_bytes(&v);
        let want = |body: &[u8]| {
            let mut w = (added.0)(body.len());
            w.extend_from_slice(body);
            w.extend(std::iter::repeat(0).take(added.1));
            w
        };
        let same = |a: &T, b: &[u8]| Encode::to_bytes(a) == b;
        c.seen(format!("{name}/{}", hex(&body)).as_bytes());
        c.sample(|| format!("{name} around {v:?}"));
        let mut built = vec![];
        for (how, f) in mk {
            match c.guard(|| f(v.clone())) {
                Ok(w) => built.push((*how, w)),
                Err(p) => c.violation(format!("{name}/{how}/panic"), p.0),
            }
        }
        for (how, mut w) in built {
            let sig = |k: &str, which: &str| format!("{name}/{how}/{which}/{k}");
            for (g, f) in get {
                let p = f(&w);
                // the reference is into the wrapper itself, and reads back the value
                c.check(same(unsafe { &*p }, &body), || sig("value", g), || format!("{v:?}"));
            }
            let e: Vec<u8> = Encode::to_bytes(&w);
            c.check(e == want(&body), || sig("bytes", "encode"), || format!("{} want {}", hex(&e), hex(&want(&body))));
            c.check(w.enc_len() == e.len(), || sig("enc_len", "encode"), || format!("{} for {}", w.enc_len(), hex(&e)));
            let mut buf = vec![0xee; FILL];
            let k = w.write_to(&mut buf);
            c.check(k == e.len() && buf[FILL..] == e[..] && buf[..FILL] == [0xee; FILL], || sig("write_to", "encode"), || hex(&buf));
            // a clone is independent
            let copy = w.clone();
            let mut before = body.clone();
            for (s, f) in set {
                let n = draw::<T>(r, max);
                let nb: Vec<u8> = Encode::to_bytes(&n);
                let old = f(&mut w, n);
                c.check(same(&old, &before), || sig("found", s), || format!("{old:?} where {} was", hex(&before)));
                before = nb.clone();
                for (g, get) in get {
                    c.check(same(unsafe { &*get(&w) }, &nb), || sig("mutated-value", &format!("{s}-{g}")), || hex(&nb));
                }
                let e: Vec<u8> = Encode::to_bytes(&w);
                c.check(e == want(&nb), || sig("mutated-bytes", s), || format!("{} want {}", hex(&e), hex(&want(&nb))));
                let e: Vec<u8> = Encode::to_bytes(&copy);
                c.check(e == want(&body), || sig("clone-shares", s), || hex(&e));
                c.count("mutations through a wrapper", 1);
            }
            drop(w);
            for (i, f) in into {
                let t = f(copy.clone());
                c.check(same(&t, &body), || sig("unwrapped", i), || format!("{v:?} became {t:?}"));
            }
            c.count("wrappers built and taken apart", 1);
        }
    }
    let live1 = LIVE.with(|l| l.get());
    c.check(live0 == live1, || format!("{name}/dropped"), || format!("{} contents alive after every wrapper is gone", live1 - live0));
}

fn order<W: PartialOrd, T: PartialOrd + Gen + Clone + Debug>(c: &mut Ctx, r: &mut Rng, name: &str, mk: impl Fn(T) -> W) {
    for _ in 0..6 {
        let a = T::gen(r);
        let b = a.near(r);
        let (wa, wb) = (mk(a.clone()), mk(b.clone()));
        c.seen(format!("{name}/cmp/{a:?}/{b:?}").as_bytes());
        let got = (wa == wb, wa != wb, wa < wb, wa <= wb, wa > wb, wa >= wb, wa.partial_cmp(&wb));
        let want = (a == b, a != b, a < b, a <= b, a > b, a >= b, a.partial_cmp(&b));
        c.check(got == want, || format!("{name}/compare"), || format!("{a:?} ? {b:?}: {got:?}, contents {want:?}"));
        c.count("pairs compared", 1);
    }
}
fn total<W: Ord, T: Ord + Gen + Clone + Debug>(c: &mut Ctx, r: &mut Rng, name: &str, mk: impl Fn(T) -> W) {
    for _ in 0..6 {
        let a = T::gen(r);
        let b = a.near(r);
        let got = mk(a.clone()).cmp(&mk(b.clone()));
        c.check(got == a.cmp(&b), || format!("{name}/cmp"), || format!("{a:?} ? {b:?}: {got:?}"));
        let (x, y) = (mk(a.clone()).max(mk(b.clone())) == mk(a.clone().max(b.clone())), mk(a.clone()).min(mk(b.clone())) == mk(a.clone().min(b.clone())));
        c.check(x && y, || format!("{name}/minmax"), || format!("{a:?} ? {b:?}"));
    }
    let mut xs: Vec<T> = (0..r.size(12)).map(|_| T::gen(r)).collect();
    let mut ws: Vec<W> = xs.iter().cloned().map(&mk).collect();
    xs.sort();
    ws.sort();
    c.check(xs.iter().cloned().map(&mk).zip(&ws).all(|(a, b)| a == *b), || format!("{name}/sort"), || format!("{xs:?}"));
}
fn hashes<W: Hash, T: Hash + Gen + Clone + Debug>(c: &mut Ctx, r: &mut Rng, name: &str, mk: impl Fn(T) -> W) {
    let a = T::gen(r);
    let (x, y) = (tape(&mk(a.clone())), tape(&a));
    c.check(x == y, || format!("{name}/hash"), || format!("{a:?}: fed {} to the hasher, contents feed {}", hex(&x), hex(&y)));
    c.count("hash tapes compared", 1);
}
fn displays<W: Display, T: Display + Gen + Clone + Debug>(c: &mut Ctx, r: &mut Rng, name: &str, mk: impl Fn(T) -> W) {
    let a = T::gen(r);
    let w = mk(a.clone());
    let got = [format!("{w}"), format!("{w:12}"), format!("{w:>9}"), format!("{w:*^11}"), format!("{w:.1}"), format!("{w:+}"), format!("{w:07}"), format!("{w:#}")];
    let want = [format!("{a}"), format!("{a:12}"), format!("{a:>9}"), format!("{a:*^11}"), format!("{a:.1}"), format!("{a:+}"), format!("{a:07}"), format!("{a:#}")];
    c.check(got == want, || format!("{name}/display"), || format!("{got:?}, contents {want:?}"));
    c.count("display renderings compared", 8);
}
fn debugs<W: Debug, T: Debug + Gen + Clone>(c: &mut Ctx, r: &mut Rng, name: &str, exact: bool, mk: impl Fn(T) -> W) {
    let a = T::gen(r);
    let w = mk(a.clone());
    if exact {
        let got = [format!("{w:?}"), format!("{w:#?}"), format!("{w:x?}"), format!("{w:9?}")];
        let want = [format!("{a:?}"), format!("{a:#?}"), format!("{a:x?}"), format!("{a:9?}")];
        c.check(got == want, || format!("{name}/debug"), || format!("{got:?}, contents {want:?}"));
    } else {
        c.check(format!("{w:?}").contains(&format!("{a:?}")), || format!("{name}/debug"), || format!("{w:?} for {a:?}"));
    }
}

fn none(_: usize) -> Vec<u8> {
    vec![]
}
fn p8(n: usize) -> Vec<u8> {
    vec![n as u8]
}
fn p16(n: usize) -> Vec<u8> {
    (n as u16).to_be_bytes().to_vec()
}
fn p30(n: usize) -> Vec<u8> {
    (n as u32).to_be_bytes().to_vec()
}

macro_rules! autobox {
    ($c:ident, $r:ident, $t:ty) => {{
        type T = $t;
        type W = AutoBox<T>;
        let name = concat!("AutoBox<", stringify!($t), ">");
        common::<W, T>(
            $c, $r, name,
            &[("new", &|x| W::new(x)), ("from_boxed", &|x| W::from_boxed(Box::new(x))), ("From", &|x| W::from(x)), ("From-box", &|x| W::from(Box::new(x))), ("clone", &|x| W::new(x).clone())],
            &[("as_inner", &|w| w.as_inner()), ("AsRef", &|w| AsRef::<T>::as_ref(w)), ("AsRef-box", &|w| &**AsRef::<Box<T>>::as_ref(w))],
            &[("as_mut_inner", &|w, x| replace(w.as_mut_inner(), x)), ("as_mut_boxed", &|w, x| *replace(w.as_mut_boxed(), Box::new(x))), ("as_mut_boxed-deref", &|w, x| replace(&mut **w.as_mut_boxed(), x)), ("AsMut", &|w, x| replace(AsMut::<T>::as_mut(w), x))],
            &[("into_inner", &|w| w.into_inner()), ("into_box", &|w| *w.into_box())],
            (none, 0),
        );
    }};
}
macro_rules! padded {
    ($c:ident, $r:ident, $t:ty, $n:literal) => {{
        type T = $t;
        type W = Padded<T, $n>;
        let name = concat!("Padded<", stringify!($t), ",", $n, ">");
        common::<W, T>(
            $c, $r, name,
            &[("new", &|x| W::new(x)), ("with_padding", &|x| Padded::<T, 9>::with_padding::<$n>(x)), ("From", &|x| W::from(x)), ("clone", &|x| W::new(x).clone())],
            &[("as_inner", &|w| w.as_inner())],
            &[("as_mut_inner", &|w, x| replace(w.as_mut_inner(), x))],
            &[("into_inner", &|w| w.into_inner())],
            (none, $n),
        );
        let w = W::new(T::gen($r));
        $c.check(W::PADDING == $n && w.padding() == $n, || format!("{name}/padding"), || format!("{} {}", W::PADDING, w.padding()));
        $c.check(w.estimate() == Encode::to_bytes(&w).len(), || format!("{name}/estimate"), || format!("{}", w.estimate()));
    }};
}
macro_rules! vpadded {
    ($c:ident, $r:ident, $t:ty, $n:literal) => {{
        type T = $t;
        type W = VPadded<T, $n>;
        let name = concat!("VPadded<", stringify!($t), ",", $n, ">");
        common::<W, T>($c, $r, name, &[("new", &|x| W::new(x)), ("From", &|x| W::from(x)), ("clone", &|x| W::new(x).clone())], &[], &[], &[("into_inner", &|w| w.into_inner())], (none, 0));
    }};
}
macro_rules! dynamic {
    ($c:ident, $r:ident, $s:ty, $pre:expr, $t:ty) => {{
        type T = $t;
        type W = Dynamic<$s, T>;
        let name = concat!("Dynamic<", stringify!($s), ",", stringify!($t), ">");
        common::<W, T>(
            $c, $r, name,
            &[("new", &|x| W::new(x)), ("From", &|x| W::from(x)), ("clone", &|x| W::new(x).clone())],
            &[("AsRef", &|w| AsRef::<T>::as_ref(w)), ("Borrow", &|w| Borrow::<T>::borrow(w))],
            &[("AsMut", &|w, x| replace(AsMut::<T>::as_mut(w), x))],
            &[("into_inner", &|w| w.into_inner())],
            ($pre, 0),
        );
        let v = draw::<T>($r, if name.starts_with("Dynamic<u8") { 255 } else { usize::MAX });
        let w = W::new(v.clone());
        let n = Encode::to_bytes(&v).len();
        let got: Option<usize> = w.length_prefix().ok().map(|x| x.into());
        $c.check(got == Some(n), || format!("{name}/length_prefix"), || format!("{got:?} for {n} bytes"));
        let d = format!("{w:?}");
        $c.check(d.contains(&format!("{v:?}")) && d.contains(&n.to_string()) && d.contains(<$s as LenPref>::suffix()), || format!("{name}/debug"), || d.clone());
    }};
}
macro_rules! nullable {
    ($c:ident, $r:ident, $t:ty) => {{
        type T = $t;
        type W = Nullable<T>;
        let name = concat!("Nullable<", stringify!($t), ">");
        let live0 = LIVE.with(|l| l.get());
        {
            let v = if $r.chance(1, 3) { None } else { Some(T::gen($r)) };
            let enc = |v: &Option<T>| v.as_ref().map(|x| Encode::to_bytes(x)).unwrap_or_default();
            let mut made = vec![("From-option", W::from(v.clone())), ("clone", W::from(v.clone()).clone())];
            if let Some(x) = &v {
                made.push(("From", W::from(x.clone())));
            } else {
                made.push(("default", W::default()));
            }
            $c.seen(format!("{name}/{}", hex(&enc(&v))).as_bytes());
            for (how, mut w) in made {
                let sig = |k: &str| format!("{name}/{how}/{k}");
                $c.check(w.is_some() == v.is_some() && w.is_none() == v.is_none(), || sig("is_some"), || format!("{w:?}"));
                $c.check(enc(w.as_inner()) == enc(&v) && w.as_inner().is_some() == v.is_some(), || sig("as_inner"), || format!("{w:?}"));
                let e: Vec<u8> = Encode::to_bytes(&w);
                $c.check(e == enc(&v) && w.enc_len() == e.len() && w.estimate() == e.len(), || sig("bytes"), || hex(&e));
                let copy = w.clone();
                let n = if $r.chance(1, 3) { None } else { Some(T::gen($r)) };
                let nb = enc(&n);
                let ns = n.is_some();
                let old = replace(w.as_mut_inner(), n);
                $c.check(old.is_some() == v.is_some() && enc(&old) == enc(&v), || sig("found"), || format!("{old:?} where {v:?} was"));
                $c.check(enc(w.as_inner()) == nb && w.is_some() == ns && Encode::to_bytes(&w) == nb, || sig("as_mut_inner"), || format!("{w:?}"));
                $c.check(enc(copy.as_inner()) == enc(&v), || sig("clone-shares"), || format!("{copy:?}"));
                if let Some(x) = w.as_mut_inner() {
                    let n = T::gen($r);
                    let nb: Vec<u8> = Encode::to_bytes(&n);
                    *x = n;
                    $c.check(Encode::to_bytes(&w) == nb, || sig("as_mut_inner-some"), || format!("{w:?}"));
                }
                $c.check(enc(&copy.clone().into_inner()) == enc(&v), || sig("into_inner"), || format!("{copy:?}"));
                $c.check(enc(&Option::<T>::from(copy)) == enc(&v), || sig("into-option"), || format!("{v:?}"));
                $c.count("wrappers built and taken apart", 1);
            }
        }
        let live1 = LIVE.with(|l| l.get());
        $c.check(live0 == live1, || format!("{name}/dropped"), || format!("{}", live1 - live0));
    }};
}

fn bytes_case(c: &mut Ctx, r: &mut Rng) {
    let n = if r.chance(1, 20) { r.range(100, 700) } else { r.size(24) };
    let src = r.spicy_bytes(n);
    c.seen(format!("Bytes/{}", hex(&src)).as_bytes());
    let mut s2 = src.clone();
    let mut made: Vec<(&str, Bytes)> = vec![
        ("From-vec", Bytes::from(roomy(&src, 1))),
        ("from_vec", Bytes::from_vec(roomy(&src, 2))),
        ("From-slice", Bytes::from(&src[..])),
        ("From-mut-slice", Bytes::from(&mut s2[..])),
        ("From-box", Bytes::from(src.clone().into_boxed_slice())),
        ("FromIterator", hinted(r, src.iter().copied()).collect()),
        ("decode", Bytes::decode(src.clone())),
        ("clone", Bytes::from(src.clone()).clone()),
    ];
    if src.is_empty() {
        made.push(("new", Bytes::new()));
        made.push(("default", Bytes::default()));
    }
    if let Ok(mut a) = <[u8; 5]>::try_from(&src[..n.min(5)]) {
        if n == 5 {
            made.push(("From-array", Bytes::from(a)));
            made.push(("From-array-ref", Bytes::from(&a)));
            made.push(("From-array-mut", Bytes::from(&mut a)));
        }
    }
    for (how, b) in made {
        let mut b = b;
        let mut m = src.clone();
        let sig = |k: &str| format!("Bytes/{how}/{k}");
        let view = |c: &mut Ctx, b: &Bytes, m: &Vec<u8>, when: &str| {
            let v: &Vec<u8> = b.as_ref();
            let s: &[u8] = b.as_ref();
            let ok = [
                ("as_ref-vec", v == m), ("as_ref-slice", s == &m[..]), ("deref", **b == m[..]), ("len", b.len() == m.len()), ("iter", b.iter().copied().eq(m.iter().copied())),
                ("into_iter-ref", b.into_iter().copied().eq(m.iter().copied())), ("rev", b.iter().rev().eq(m.iter().rev())), ("into_iter", b.clone().into_iter().eq(m.iter().copied())),
                ("into_vec", b.clone().into_vec() == *m), ("From-into-vec", Vec::<u8>::from(b.clone()) == *m), ("From-into-box", *Box::<[u8]>::from(b.clone()) == m[..]),
                ("bytes", Encode::to_bytes(b) == *m), ("bytes-full", Encode::encode::<Vec<u8>>(b) == *m), ("enc_len", b.enc_len() == m.len()), ("estimate", b.estimate() == m.len()), ("unknown", b.unknown() == m.len()),
                ("hash", tape(b) == tape(m)), ("eq", *b == Bytes::from(m.clone())),
                ("contains", b.first() == m.first() && b.last() == m.last() && b.get(1) == m.get(1)),
                ("nth", b.into_iter().nth(2) == m.get(2) && b.into_iter().len() == m.len()),
            ];
            for (k, ok) in ok {
                c.check(ok, || format!("Bytes/{how}/{when}/{k}"), || format!("{b:?}, list {}", hex(m)));
            }
        };
        view(c, &b, &m, "built");
        for _ in 0..r.range(1, 6) {
            match r.below(7) {
                0 => {
                    let k = r.size(9);
                    let more = r.spicy_bytes(k);
                    b.extend(hinted(r, more.iter().copied()));
                    m.extend(more);
                    c.count("Bytes::extend", 1);
                }
                1 => {
                    let x = r.u8();
                    for y in b.iter_mut() {
                        *y ^= x;
                    }
                    m.iter_mut().for_each(|y| *y ^= x);
                }
                2 => {
                    let x = r.u8();
                    for y in &mut b {
                        *y = y.wrapping_add(x);
                    }
                    m.iter_mut().for_each(|y| *y = y.wrapping_add(x));
                }
                3 => {
                    let v: &mut Vec<u8> = b.as_mut();
                    let x = r.u8();
                    v.push(x);
                    m.push(x);
                    if r.chance(1, 2) {
                        v.insert(0, x);
                        m.insert(0, x);
                    }
                }
                4 => {
                    let v: &mut Vec<u8> = b.as_mut();
                    let k = r.below(v.len() + 1);
                    v.truncate(k);
                    m.truncate(k);
                }
                5 => {
                    let s: &mut [u8] = b.as_mut();
                    s.reverse();
                    m.reverse();
                }
                _ => {
                    if !m.is_empty() {
                        let i = r.below(m.len());
                        let x = r.u8();
                        b[i] = x;
                        m[i] = x;
                    }
                }
            }
            view(c, &b, &m, "mutated");
            c.count("mutations through a wrapper", 1);
        }
        let o = Bytes::from(m.near(r));
        let om = o.clone().into_vec();
        c.check((b == o) == (m == om) && b.cmp(&o) == m.cmp(&om) && b.partial_cmp(&o) == m.partial_cmp(&om), || sig("compare"), || format!("{b:?} {o:?}"));
    }
}

/// decoding through a wrapper gives the contents' own decode of the payload
fn decode_through(c: &mut Ctx, r: &mut Rng) {
    macro_rules! via {
        ($t:ty) => {{
            let k = r.range(0, 24);
            let tail = r.spicy_bytes(k);
            let mut raw: Vec<u8> = if r.chance(1, 2) { Encode::to_bytes(&<$t>::gen(r)) } else { tail.clone() };
            raw.truncate(250);
            let kind = *r.pick(&KINDS);
            let run = |b: &[u8]| {
                let mut p = AnyP::new(kind, b);
                let x = <$t>::parse(&mut p).ok().map(|x| Encode::to_bytes(&x));
                (x, p.remainder())
            };
            let bare = run(&raw);
            let name = stringify!($t);
            let boxed = {
                let mut p = AnyP::new(kind, &raw);
                (AutoBox::<$t>::parse(&mut p).ok().map(|x| Encode::to_bytes(x.as_inner())), p.remainder())
            };
            c.check(boxed == bare, || format!("AutoBox<{name}>/decode"), || format!("{boxed:?} vs {bare:?} on {}", hex(&raw)));
            let null = {
                let mut p = AnyP::new(kind, &raw);
                (Nullable::<$t>::parse(&mut p).ok().map(|x| x.into_inner().map(|x| Encode::to_bytes(&x))), p.remainder())
            };
            let want = if raw.is_empty() { (Some(None), 0) } else { (bare.0.clone().map(Some), bare.1) };
            c.check(null.0 == want.0 && (null.0.is_none() || null.1 == want.1), || format!("Nullable<{name}>/decode"), || format!("{null:?} vs {want:?} on {}", hex(&raw)));
            let whole = if bare.1 == 0 { bare.0.clone() } else { None };
            let mut pre = vec![raw.len() as u8];
            pre.extend_from_slice(&raw);
            pre.extend_from_slice(&tail);
            let dy = {
                let mut p = AnyP::new(kind, &pre);
                (Dynamic::<u8, $t>::parse(&mut p).ok().map(|x| Encode::to_bytes(&x.into_inner())), p.remainder())
            };
            c.check(dy.0 == whole && (dy.0.is_none() || dy.1 == tail.len()), || format!("Dynamic<u8,{name}>/decode"), || format!("{dy:?} vs {whole:?} on {}", hex(&pre)));
            let mut v = raw.clone();
            v.extend([7, 7, 7]);
            let vp = {
                let mut p = AnyP::new(kind, &v);
                (VPadded::<$t, 3>::parse(&mut p).ok().map(|x| Encode::to_bytes(&x.into_inner())), p.remainder())
            };
            c.check(vp.0 == whole && (vp.0.is_none() || vp.1 == 3), || format!("VPadded<{name},3>/decode"), || format!("{vp:?} vs {whole:?} on {}", hex(&v)));
            c.seen(format!("through/{name}/{}", hex(&raw)).as_bytes());
            c.count("payloads decoded bare and wrapped", 1);
        }};
    }
    via!(u16);
    via!(String);
    via!(Vec<u8>);
    via!(Option<u8>);
    via!(Sequence<u16>);
    via!(N);
    via!(Bytes);
    via!(FixedBytes<3>);
    via!(bool);
    via!(f64);
}

fn main() {
    let mut c = Ctx::from_args("C22");
    let k = c.n(6000, 200_000);
    c.cases("boxed", k, |c, r| {
        autobox!(c, r, u16);
        autobox!(c, r, String);
        autobox!(c, r, Vec<u8>);
        autobox!(c, r, f64);
        autobox!(c, r, Option<u8>);
        autobox!(c, r, N);
        autobox!(c, r, Tr);
        autobox!(c, r, ());
        autobox!(c, r, FixedBytes<300>);
        autobox!(c, r, FixedBytes<0>);
        order(c, r, "AutoBox<f64>", AutoBox::<f64>::new);
        order(c, r, "AutoBox<Odd>", AutoBox::<Odd>::new);
        order(c, r, "AutoBox<String>", AutoBox::<String>::new);
        total(c, r, "AutoBox<String>", AutoBox::<String>::new);
        total(c, r, "AutoBox<u16>", AutoBox::<u16>::new);
        hashes(c, r, "AutoBox<String>", AutoBox::<String>::new);
        hashes(c, r, "AutoBox<u16>", AutoBox::<u16>::new);
        displays(c, r, "AutoBox<f64>", AutoBox::<f64>::new);
        displays(c, r, "AutoBox<String>", AutoBox::<String>::new);
        displays(c, r, "AutoBox<i8>", AutoBox::<i8>::new);
        debugs(c, r, "AutoBox<Option<u8>>", true, AutoBox::<Option<u8>>::new);
        debugs(c, r, "AutoBox<f64>", true, AutoBox::<f64>::new);
        c.check(AutoBox::<Vec<u8>>::default().into_inner().is_empty() && AutoBox::<u16>::default().into_inner() == 0, || "AutoBox/default".into(), String::new);
        let live = LIVE.with(|l| l.get());
        c.check(AutoBox::<Tr>::default().as_inner().0 == 77, || "AutoBox/default".into(), String::new);
        c.check(live == LIVE.with(|l| l.get()), || "AutoBox/default/dropped".into(), String::new);
        // the box handed in is the box handed out
        let b = Box::new(Tr::new(1));
        let (p, serial) = (&*b as *const Tr, b.1);
        let b = AutoBox::from_boxed(b).into_box();
        c.check(&*b as *const Tr == p && b.1 == serial, || "AutoBox/reboxed".into(), String::new);
    });
    c.cases("padded", k, |c, r| {
        padded!(c, r, u16, 0);
        padded!(c, r, u16, 1);
        padded!(c, r, i8, 5);
        padded!(c, r, f64, 300);
        padded!(c, r, FixedBytes<3>, 2);
        padded!(c, r, Tr, 4);
        padded!(c, r, u32, 17);
        padded!(c, r, u8, 255);
        padded!(c, r, u64, 256);
        padded!(c, r, FixedBytes<300>, 300);
        padded!(c, r, FixedBytes<520>, 1);
        order(c, r, "Padded<f64>", Padded::<f64, 3>::new);
        order(c, r, "Padded<Odd>", Padded::<Odd, 3>::new);
        order(c, r, "Padded<u16>", Padded::<u16, 1>::new);
        total(c, r, "Padded<u16>", Padded::<u16, 1>::new);
        total(c, r, "Padded<FixedBytes>", Padded::<FixedBytes<3>, 1>::new);
        hashes(c, r, "Padded<u16>", Padded::<u16, 2>::new);
        hashes(c, r, "Padded<u16,20>", Padded::<u16, 20>::new);
        hashes(c, r, "Padded<u16,300>", Padded::<u16, 300>::new);
        order(c, r, "Padded<f64,65536>", Padded::<f64, 65536>::new);
        total(c, r, "Padded<u16,40>", Padded::<u16, 40>::new);
        debugs(c, r, "Padded<u16,70>", false, Padded::<u16, 70>::new);
        hashes(c, r, "Padded<Option<u8>>", Padded::<Option<u8>, 2>::new);
        debugs(c, r, "Padded<u16>", false, Padded::<u16, 2>::new);
        c.check(Padded::<u16, 3>::default().into_inner() == 0, || "Padded/default".into(), String::new);
    });
    c.cases("reserved", k, |c, r| {
        vpadded!(c, r, u16, 0);
        vpadded!(c, r, String, 1);
        vpadded!(c, r, Vec<u8>, 4);
        vpadded!(c, r, Sequence<u16>, 2);
        vpadded!(c, r, Tr, 4);
        vpadded!(c, r, String, 33);
        vpadded!(c, r, Vec<u8>, 300);
        vpadded!(c, r, Bytes, 256);
        vpadded!(c, r, (), 3);
        vpadded!(c, r, FixedBytes<300>, 0);
        padded!(c, r, (), 20);
        padded!(c, r, FixedBytes<0>, 3);
        order(c, r, "VPadded<f64>", VPadded::<f64, 3>::new);
        order(c, r, "VPadded<Odd>", VPadded::<Odd, 3>::new);
        order(c, r, "VPadded<String>", VPadded::<String, 3>::new);
        total(c, r, "VPadded<String>", VPadded::<String, 1>::new);
        hashes(c, r, "VPadded<String>", VPadded::<String, 2>::new);
        hashes(c, r, "VPadded<String,40>", VPadded::<String, 40>::new);
        order(c, r, "VPadded<String,300>", VPadded::<String, 300>::new);
        total(c, r, "VPadded<String,70>", VPadded::<String, 70>::new);
        debugs(c, r, "VPadded<String,300>", true, VPadded::<String, 300>::new);
        debugs(c, r, "VPadded<Vec<u8>>", true, VPadded::<Vec<u8>, 2>::new);
        debugs(c, r, "VPadded<String>", true, VPadded::<String, 2>::new);
        c.check(VPadded::<u16, 3>::default().into_inner() == 0, || "VPadded/default".into(), String::new);
    });
    c.cases("prefixed", k, |c, r| {
        dynamic!(c, r, u8, p8, u16);
        dynamic!(c, r, u8, p8, String);
        dynamic!(c, r, u8, p8, Vec<u8>);
        dynamic!(c, r, u16, p16, Sequence<u16>);
        dynamic!(c, r, u16, p16, Option<u8>);
        dynamic!(c, r, u30, p30, f64);
        dynamic!(c, r, u30, p30, Bytes);
        dynamic!(c, r, u30, p30, N);
        dynamic!(c, r, u16, p16, Z);
        dynamic!(c, r, u30, p30, Tr);
        dynamic!(c, r, u8, p8, ());
        dynamic!(c, r, u8, p8, FixedBytes<0>);
        dynamic!(c, r, u16, p16, FixedBytes<300>);
        order(c, r, "Dynamic<f64>", Dynamic::<u8, f64>::new);
        order(c, r, "Dynamic<Odd>", Dynamic::<u16, Odd>::new);
        order(c, r, "Dynamic<String>", Dynamic::<u30, String>::new);
        total(c, r, "Dynamic<String>", Dynamic::<u8, String>::new);
        total(c, r, "Dynamic<Vec<u8>>", Dynamic::<u30, Vec<u8>>::new);
        hashes(c, r, "Dynamic<String>", Dynamic::<u8, String>::new);
        hashes(c, r, "Dynamic<Vec<u8>>", Dynamic::<u30, Vec<u8>>::new);
        displays(c, r, "Dynamic<f64>", Dynamic::<u8, f64>::new);
        displays(c, r, "Dynamic<String>", Dynamic::<u16, String>::new);
        displays(c, r, "Dynamic<i8>", Dynamic::<u30, i8>::new);
    });
    c.cases("nullable", k, |c, r| {
        nullable!(c, r, u16);
        nullable!(c, r, String);
        nullable!(c, r, Vec<u8>);
        nullable!(c, r, f64);
        nullable!(c, r, FixedBytes<3>);
        nullable!(c, r, Tr);
        nullable!(c, r, ());
        nullable!(c, r, FixedBytes<0>);
        nullable!(c, r, FixedBytes<300>);
        let opt = |r: &mut Rng| if r.chance(1, 3) { None } else { Some(u16::gen(r)) };
        for _ in 0..6 {
            let (a, b) = (opt(r), opt(r));
            let (x, y) = (Nullable::<u16>::from(a), Nullable::<u16>::from(b));
            c.check((x == y) == (a == b) && x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == a.partial_cmp(&b) && (x < y) == (a < b), || "Nullable/compare".into(), || format!("{a:?} {b:?}"));
            c.check(tape(&x) == tape(&a), || "Nullable/hash".into(), || format!("{a:?}"));
            let (fa, fb) = (a.map(|_| f64::gen(r)), b.map(|_| f64::gen(r)));
            let (x, y) = (Nullable::<f64>::from(fa), Nullable::<f64>::from(fb));
            c.check((x == y) == (fa == fb) && x.partial_cmp(&y) == fa.partial_cmp(&fb), || "Nullable<f64>/compare".into(), || format!("{fa:?} {fb:?}"));
            c.check(format!("{x:?}").contains(&format!("{fa:?}")), || "Nullable/debug".into(), || format!("{x:?}"));
        }
    });
    // every comparison, hash and rendering through every wrapper, over contents of every size
    macro_rules! each {
        ($c:ident $r:ident $w:expr, $name:literal; $($t:ty)*) => {$(
            order($c, $r, concat!($name, "<", stringify!($t), ">"), $w as fn($t) -> _);
            total($c, $r, concat!($name, "<", stringify!($t), ">"), $w as fn($t) -> _);
            hashes($c, $r, concat!($name, "<", stringify!($t), ">"), $w as fn($t) -> _);
            debugs($c, $r, concat!($name, "<", stringify!($t), ">"), false, $w as fn($t) -> _);
        )*};
    }
    c.cases("compared", k / 4, |c, r| match r.below(4) {
        0 => {
            each!(c r AutoBox::new, "AutoBox"; () bool u8 i8 i16 u16 u32 i32 u64 i64 String Vec<u8> Option<u8> FixedBytes<3> Bytes Sequence<u16>);
            displays(c, r, "AutoBox<u8>", AutoBox::<u8>::new);
            displays(c, r, "AutoBox<bool>", AutoBox::<bool>::new);
            displays(c, r, "AutoBox<u64>", AutoBox::<u64>::new);
            displays(c, r, "AutoBox<i16>", AutoBox::<i16>::new);
        }
        1 => {
            each!(c r Padded::<_, 3>::new, "Padded"; () bool u8 i8 i16 u16 u32 i32 u64 i64 FixedBytes<3>);
            each!(c r Padded::<_, 0>::new, "Padded0"; () bool u8 i8 i16 u16 u32 i32 u64 i64 FixedBytes<3>);
        }
        2 => {
            each!(c r VPadded::<_, 3>::new, "VPadded"; () bool u8 i8 i16 u16 u32 i32 u64 i64 String Vec<u8> Option<u8> FixedBytes<3> Bytes Sequence<u16>);
            each!(c r VPadded::<_, 0>::new, "VPadded0"; () bool u8 i8 i16 u16 u32 i32 u64 i64 String Vec<u8> Option<u8> FixedBytes<3> Bytes Sequence<u16>);
        }
        _ => {
            each!(c r Dynamic::<u8, _>::new, "Dynamic8"; () bool u8 i8 i16 u16 u32 i32 u64 i64 String Vec<u8> Option<u8> FixedBytes<3> Bytes Sequence<u16>);
            each!(c r Dynamic::<u30, _>::new, "Dynamic30"; () bool u8 i8 i16 u16 u32 i32 u64 i64 String Vec<u8> Option<u8> FixedBytes<3> Bytes Sequence<u16>);
            displays(c, r, "Dynamic<u8,u8>", Dynamic::<u8, u8>::new);
            displays(c, r, "Dynamic<u16,bool>", Dynamic::<u16, bool>::new);
            displays(c, r, "Dynamic<u30,u64>", Dynamic::<u30, u64>::new);
        }
    });
    c.cases("bytes", k, bytes_case);
    c.cases("through", k * 2, decode_through);
    c.finish()
}
