//! C09: histories over every type whose implementation reads or writes without
//! bounds checks, or hands out views of memory, with extreme arguments. What
//! decides is the instrumentation this runs under (unsafe-precondition checks,
//! AddressSanitizer, the interpreter), plus two facts any build can check:
//! results come from inside the buffer, and text handed out is UTF-8.
//!
//! `--prop C09/<stream>` runs one stream.
use mon::alloc;
use mon::hist::{gen_buf, gen_op, try_apply, Bias, Model};
use mon::model;
use mon::ops::{AnyP, AnyT, TyOps, KINDS, NTARGETS};
use mon::prng::Rng;
use mon::rep::Ctx;
use mon::universe::*;
use std::collections::VecDeque;
use tedium::builder::Builder;
use tedium::hexstring::HexString;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::cleanup::LeftoverState;
use tedium::*;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

const SLOW: bool = cfg!(miri);

fn extreme(r: &mut Rng, len: usize, at: usize) -> usize {
    match r.below(14) {
        0 => len,
        1 => len + 1,
        2 => len.wrapping_sub(1),
        3 => len.saturating_sub(at),
        4 => len.saturating_sub(at) + 1,
        5 => usize::MAX,
        6 => usize::MAX - at,
        7 => (usize::MAX - at).wrapping_add(1),
        8 => usize::MAX - len,
        9 => usize::MAX / 2 + r.below(2),
        10 => (1usize << 32) + r.below(3),
        11 => 0,
        _ => r.range(0, len + 2),
    }
}

/// exact-size heap copy: a read past the end is a read past the allocation
fn boxed(b: &[u8]) -> Box<[u8]> {
    b.to_vec().into_boxed_slice()
}

fn inside(outer: &[u8], inner: &[u8]) -> bool {
    let o = outer.as_ptr() as usize;
    let i = inner.as_ptr() as usize;
    inner.is_empty() || (i >= o && i + inner.len() <= o + outer.len())
}

fn utf8(c: &mut Ctx, what: &str, s: &str) {
    c.count("texts checked", 1);
    if std::str::from_utf8(s.as_bytes()).is_err() {
        let b = s.as_bytes().to_vec();
        c.violation(format!("utf8/{what}"), format!("safe code was handed text that is not UTF-8: {b:02x?}"));
    }
}

fn y_at<'a>(s: &SliceBuffer<'a>, ix: usize) -> SliceBuffer<'a> {
    SliceBuffer::new(&s.as_slice()[ix..])
}

fn bufs(c: &mut Ctx, r: &mut Rng) {
    let n = r.size(if SLOW { 12 } else { 40 });
    let b = boxed(&r.bytes(n));
    for _ in 0..8 {
        let ix = extreme(r, n, 0);
        let len = extreme(r, n, ix);
        let fits = ix <= n && len <= n - ix;
        let v = VecBuffer::from(&b[..]);
        let w = c.guard(|| v.get_slice(ix, len).to_vec());
        match w {
            Ok(x) if fits && x == b[ix..ix + len] => {}
            Err(_) if !fits => {}
            o => c.violation("VecBuffer/get_slice", format!("{n} bytes, get_slice({ix}, {len}) -> {o:?}")),
        }
        let w = c.guard(|| v.get_byte(ix));
        match w {
            Ok(x) if ix < n && x == b[ix] => {}
            Err(_) if ix >= n => {}
            o => c.violation("VecBuffer/get_byte", format!("{n} bytes, get_byte({ix}) -> {o:?}")),
        }
        let d = c.guard(|| (v.is_empty(), v.len(), format!("{v:?}")));
        c.check(matches!(&d, Ok((e, l, t)) if *e == (n == 0) && *l == n && *t == format!("{:?}", &b[..])), || "VecBuffer/whole".into(), || format!("{n} bytes: {d:?}"));
        let s = SliceBuffer::new(&b);
        c.check(s.as_slice() == &b[..] && inside(&b, s.as_slice()) && s.len() == n && s.is_empty() == (n == 0) && s == SliceBuffer::from(&b[..]), || "SliceBuffer/whole".into(), || format!("{n} bytes"));
        // the unchecked forms, inside their contract
        if fits {
            let (x, y) = unsafe { s.split_unchecked(ix) };
            let (t, z) = unsafe { s.take_unchecked(ix) };
            let g = unsafe { v.get_slice_unchecked(ix, len) };
            c.check(x.as_slice() == &b[..ix] && y.as_slice() == &b[ix..] && t == &b[..ix] && z == y && g == &b[ix..ix + len] && inside(&b, t), || "unchecked/range".into(), || format!("{n} bytes at {ix}+{len}"));
        }
        if ix < n {
            let (h, t) = unsafe { y_at(&s, ix).cut_first_unchecked() };
            let g = unsafe { v.get_byte_unchecked(ix) };
            c.check(h == b[ix] && g == b[ix] && t.as_slice() == &b[ix + 1..] && inside(&b, t.as_slice()), || "unchecked/byte".into(), || format!("{n} bytes at {ix}"));
        }
        let w = c.guard(|| {
            let (x, y) = s.split(ix);
            (x.into_slice(), y.into_slice())
        });
        match w {
            Ok((x, y)) if ix <= n && x == &b[..ix] && y == &b[ix..] && inside(&b, x) && inside(&b, y) => {}
            Err(_) if ix > n => {}
            o => c.violation("SliceBuffer/split", format!("{n} bytes, split({ix}) -> {:?}", o.map(|(x, y)| (x.len(), y.len())))),
        }
        let w = c.guard(|| {
            let (x, y) = s.take(ix);
            (x, y.into_slice())
        });
        match w {
            Ok((x, y)) if ix <= n && x == &b[..ix] && y == &b[ix..] && inside(&b, x) && inside(&b, y) => {}
            Err(_) if ix > n => {}
            o => c.violation("SliceBuffer/take", format!("{n} bytes, take({ix}) -> {:?}", o.map(|(x, y)| (x.len(), y.len())))),
        }
        c.count(if fits { "in-range requests" } else { "out-of-range requests" }, 1);
        c.seen_u64(mon::prng::hash_bytes(&[n.to_ne_bytes(), ix.to_ne_bytes(), len.to_ne_bytes()].concat()));
    }
    let mut s = SliceBuffer::new(&b);
    let mut k = 0;
    while let Some((x, t)) = s.cut_first() {
        c.check(k < n && x == b[k], || "SliceBuffer/cut_first".into(), || format!("byte {k} of {n}"));
        s = t;
        k += 1;
        if k > n {
            break;
        }
    }
    c.check(k == n && s.is_empty() && s.cut_first().is_none(), || "SliceBuffer/cut_first-end".into(), || format!("{k} of {n}"));
}

fn parsers(c: &mut Ctx, r: &mut Rng) {
    let mut buf = gen_buf(r);
    if SLOW {
        buf.truncate(16);
    }
    let b = boxed(&buf);
    let k = *r.pick(&KINDS);
    let mut m = Model::new(&b);
    let mut p = AnyP::new(k, &b);
    let steps = r.range(1, if SLOW { 10 } else { 40 });
    let mut log = vec![];
    for _ in 0..steps {
        let bias = *r.pick(&[Bias::Even, Bias::Windows, Bias::Skips]);
        let op = gen_op(&m, r, bias);
        let before = p.remainder();
        let want = m.apply(&op);
        let got = c.guard(|| try_apply(&mut p, &op));
        c.count(&format!("op {}", op.name()), 1);
        log.push(op.index() as u8 | (want.ok() as u8) << 6);
        // what safe code can see must be explained by the buffer
        match got {
            Ok(Ok(o)) if o == want => {}
            Ok(Ok(o)) => {
                // C05 judges values; here: the parser must not have run past the bytes that were left
                if p.remainder() > before && !matches!(op, mon::hist::Op::Enforce) {
                    c.violation(format!("parser/{}/grew", k.name()), format!("{op:?} gave {o:?}; {before} bytes left before, {} after", p.remainder()));
                }
                break;
            }
            Ok(Err(_)) if !want.ok() => {}
            _ => break,
        }
    }
    log.push(k as u8);
    c.seen_u64(mon::prng::hash_bytes(&log));
    let w = c.guard(move || p.cleanup().map(|s: LeftoverState| s.len()).unwrap_or(0));
    if let Ok(n) = w {
        c.check(n <= b.len(), || "parser/leftover".into(), || format!("{n} bytes left over of {}", b.len()));
    }
}

/// iterator that gives up half-way, lies about its length, or both
struct Liar {
    left: usize,
    claim: (usize, Option<usize>),
    panic_at: usize,
}
impl Iterator for Liar {
    type Item = Box<u16>;
    fn next(&mut self) -> Option<Box<u16>> {
        if self.left == self.panic_at {
            panic!("source failed");
        }
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        Some(Box::new(self.left as u16))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.claim
    }
}
impl ExactSizeIterator for Liar {}

fn liar(r: &mut Rng, bound: usize) -> Liar {
    let left = r.range(0, bound + 3);
    let claim = match r.below(6) {
        0 => (0, None),
        1 => (left, Some(left)),
        2 => (0, Some(0)),
        3 => (bound, Some(bound)),
        4 => (left.saturating_sub(2), Some(left.saturating_sub(2))),
        _ => (left + 5, Some(left + 5)),
    };
    let panic_at = if r.chance(1, 3) { r.below(left + 1) } else { usize::MAX };
    Liar { left, claim, panic_at }
}

/// element whose encoding is one byte and whose storage is on the heap
#[derive(Clone, Debug, PartialEq)]
struct H(Box<u8>);
impl Encode for H {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        self.0.write_to(buf)
    }
}
impl Decode for H {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        Ok(H(Box::new(u8::parse(p)?)))
    }
}

fn seqs<const K: usize>(c: &mut Ctx, r: &mut Rng) {
    macro_rules! drive {
        ($s:expr, $name:expr) => {{
            let mut s = $s;
            let n = r.range(1, if SLOW { 5 } else { 12 });
            for _ in 0..n {
                let k = r.below(5);
                let it = liar(r, K);
                let (l, cl, pa) = (it.left, it.claim, it.panic_at);
                let w = c.guard(|| match k {
                    0 | 1 => s.extend(Some(Box::new(7u16))),
                    2 | 3 => s.extend(it),
                    _ => {
                        for x in s.iter_mut() {
                            **x ^= 1;
                        }
                    }
                });
                c.seen_u64(mon::prng::hash_bytes(&[K as u8, k as u8, l as u8, cl.0 as u8, (pa == usize::MAX) as u8, s.len() as u8, w.is_ok() as u8]));
                let len = s.len();
                c.check(len <= K, || format!("{}/overfull", $name), || format!("bound {K}, holds {len}"));
                // touch every element: a slot never written, or freed, shows here
                let sum: u64 = s.iter().map(|x| **x as u64).sum();
                std::hint::black_box(sum);
                c.count("sequence operations", 1);
            }
            let t = s.clone();
            let a: Vec<Box<u16>> = s.into();
            let b: Vec<Box<u16>> = t.into_iter().collect();
            c.check(a == b, || format!("{}/clone", $name), String::new);
        }};
    }
    match r.below(2) {
        0 => drive!(LimSeq::<Box<u16>, K>::new(), "LimSeq"),
        _ => drive!(FixSeq::<Box<u16>, K>::new(), "FixSeq"),
    }
    // built whole, from sources that lie or fail
    let it = liar(r, K);
    let w = c.guard(|| match r.below(4) {
        0 => it.collect::<LimSeq<Box<u16>, K>>().len(),
        1 => it.collect::<FixSeq<Box<u16>, K>>().len(),
        2 => LimSeq::<Box<u16>, K>::try_from(it.collect::<Vec<_>>()).map_or(0, |s| s.len()),
        _ => FixSeq::<Box<u16>, K>::try_from(it.collect::<Vec<_>>()).map_or(0, |s| s.len()),
    });
    if let Ok(n) = w {
        c.check(n <= K, || "seq/collect-overfull".into(), || format!("bound {K}, holds {n}"));
    }
    // decoded: elements of a partly decoded sequence are dropped on failure
    let nb = r.range(0, K + 2);
    let b = r.bytes(nb);
    let w = c.guard(|| {
        let mut p = AnyP::new(KINDS[b.len() % 3], &b);
        let x = FixSeq::<H, K>::parse(&mut p).map(|s| s.len()).unwrap_or(0);
        let mut p = AnyP::new(KINDS[b.len() % 3], &b);
        let y = LimSeq::<H, K>::parse(&mut p).map(|s| s.len()).unwrap_or(0);
        x.max(y)
    });
    if let Ok(n) = w {
        c.check(n <= K, || "seq/decode-overfull".into(), || format!("bound {K}, holds {n}"));
    }
}

fn fixed<const K: usize>(c: &mut Ctx, r: &mut Rng) {
    let n = match r.below(4) {
        0 | 1 => K,
        2 => K.saturating_sub(1),
        _ => r.range(0, K + 3),
    };
    let b = boxed(&r.spicy_bytes(n));
    c.seen_u64(mon::prng::hash_bytes(&[&[K as u8, n as u8][..], &b[..b.len().min(6)]].concat()));
    let w = c.guard(|| {
        (
            FixedBytes::<K>::try_from_slice(&b).ok(),
            FixedBytes::<K>::try_from(&b[..]).ok(),
            FixedString::<K>::try_from_bytes(&b).ok(),
            FixedString::<K>::try_from(&b[..]).ok(),
        )
    });
    let Ok((x, y, s, t)) = w else { return c.violation("fixed/panic", format!("width {K}, source {n} bytes")) };
    c.check(x.is_some() == (n == K) && y.is_some() == (n == K) && s.is_some() == (n == K) && t.is_some() == (n == K), || "fixed/width".into(), || {
        format!("width {K}, source {n} bytes: {} {} {} {}", x.is_some(), y.is_some(), s.is_some(), t.is_some())
    });
    if let Some(mut x) = x {
        c.check(x.bytes()[..] == b[..] && x.to_vec()[..] == b[..], || "fixed/content".into(), String::new);
        if K > 0 {
            x.bytes_mut()[K - 1] ^= 1;
            std::hint::black_box(&x.to_array());
        }
        let _ = c.guard(|| x.to_bytes());
    }
    if let Some(s) = s {
        if let Ok(t) = c.guard(|| s.as_string_lossy().into_owned()) {
            utf8(c, "FixedString::as_string_lossy", &t)
        }
        if let Ok(t) = c.guard(|| format!("{s}")) {
            utf8(c, "FixedString::Display", &t)
        }
    }
    let mut p = AnyP::new(KINDS[n % 3], &b);
    let w = c.guard(|| (FixedBytes::<K>::parse(&mut p).is_ok(), p.remainder()));
    if let Ok((ok, rem)) = w {
        c.check(ok == (n >= K) && rem <= n, || "fixed/parse".into(), || format!("width {K}, source {n} bytes"));
    }
    if b.len() == K {
        let arr: [u8; K] = (&b[..]).try_into().unwrap();
        let w = c.guard(|| FixedString::<K>::try_from_array(&arr).map(|s| s.is_valid_utf8()));
        if let Ok(w) = w {
            c.check(w.is_ok() == std::str::from_utf8(&b).is_ok(), || "FixedString/try_from_array".into(), String::new);
        }
    }
}

fn zarith(c: &mut Ctx, r: &mut Rng) {
    let x = model::gen_bigint(r);
    if SLOW && x.bits() > 80 {
        return;
    }
    let z = Z(x.clone());
    let n = N(x.magnitude().clone());
    let w = c.guard(|| (z.to_bytes(), n.to_bytes(), Estimable::estimate(&z), Estimable::estimate(&n)));
    let Ok((zb, nb, ze, ne)) = w else { return c.violation("zarith/panic", format!("{x}")) };
    c.check(zb.len() == ze && nb.len() == ne && !zb.is_empty() && !nb.is_empty(), || "zarith/len".into(), || format!("{x}"));
    c.seen_u64(mon::prng::hash_bytes(&zb));
    let k = r.size(12);
    let h = boxed(&r.spicy_bytes(k));
    let _ = c.guard(|| (Z::decode(&h[..]), ()));
    let mut p = AnyP::new(KINDS[k % 3], &h);
    let w = c.guard(|| (Z::parse(&mut p).is_ok(), p.remainder()));
    let mut q = AnyP::new(KINDS[(k + 1) % 3], &h);
    let v = c.guard(|| (N::parse(&mut q).is_ok(), q.remainder()));
    if let (Ok(a), Ok(b)) = (w, v) {
        c.check(a.0 == b.0 && a.1 == b.1 && a.1 <= k, || "zarith/decode".into(), || format!("{h:02x?}: {a:?} {b:?}"));
    }
}

fn targets(c: &mut Ctx, r: &mut Rng) {
    let i = r.below(NTARGETS);
    let mut t = AnyT::make(i);
    let mut want = vec![];
    for _ in 0..r.range(0, 10) {
        match r.below(7) {
            0 => {
                let b = r.u8();
                want.push(b);
                t.push_one(b);
            }
            1 => {
                let n = r.size(20);
                let b = boxed(&r.bytes(n));
                want.extend(&b[..]);
                t.push_all(&b);
            }
            2 => {
                let b = [r.u8(), r.u8(), r.u8()];
                want.extend(b);
                t.push_many::<3>(b);
            }
            3 => {
                t.push_many::<0>([]);
            }
            4 => t.resolve(),
            5 => t.anticipate(r.below(100)),
            _ => {
                t.resolve_zero();
            }
        }
    }
    c.seen_u64(mon::prng::hash_bytes(&[&[i as u8][..], &want].concat()));
    if let Some(x) = t.content() {
        c.check(x == want, || "target/content".into(), String::new);
    }
    let text = c.guard(|| match &t {
        AnyT::M(m) => vec![format!("{m}"), m.clone().into_hex(), m.clone().into_bin().unwrap_or_default(), format!("{}", m.clone().finalize())],
        AnyT::S(s) => vec![s.clone().into_hex(), s.clone().into_bin().unwrap_or_default()],
        AnyT::H(h) => vec![h.to_hex(), format!("{h}"), format!("{h:?}")],
        _ => vec![],
    });
    for s in text.unwrap_or_default() {
        utf8(c, "target", &s);
    }
}

fn text(c: &mut Ctx, r: &mut Rng) {
    let n = r.size(24);
    let b = boxed(&r.spicy_bytes(n));
    c.seen_u64(mon::prng::hash_bytes(&b));
    let mut p = AnyP::new(KINDS[n % 3], &b);
    if let Ok(Ok(s)) = c.guard(|| String::parse(&mut p)) {
        utf8(c, "String::parse", &s);
    }
    let mut p = AnyP::new(KINDS[n % 3], &b);
    if let Ok(Ok(s)) = c.guard(|| Dynamic::<u8, String>::parse(&mut p)) {
        utf8(c, "Dynamic<String>::parse", &s.into_inner());
    }
    let mut by = Bytes::from(b.to_vec());
    if let Ok(s) = c.guard(|| format!("{by:?}")) {
        utf8(c, "Bytes", &s);
    }
    let _ = &mut by;
    if let Ok(h) = c.guard(|| HexString::from_bytes(&b[..])) {
        if let Ok(s) = c.guard(|| h.to_hex()) {
            utf8(c, "HexString::to_hex", &s);
        }
    }
    // text sources, cut anywhere
    let s: String = String::from_utf8_lossy(&b).into_owned();
    let _ = c.guard(|| HexString::from_hex(s.as_str()).map(|h| h.len()));
    let hx: String = b.iter().map(|x| format!("{x:02X}")).collect::<String>() + if r.chance(1, 3) { "é" } else { "" };
    let _ = c.guard(|| HexString::from_hex(hx.as_str()).map(|h| h.len()));
    let _ = c.guard(|| hx.as_str().try_into_parser_len());
}

trait Len {
    fn try_into_parser_len(self) -> usize;
}
impl Len for &str {
    fn try_into_parser_len(self) -> usize {
        if cfg!(feature = "implicit_hexstring") {
            0
        } else {
            let p: Result<ByteParser, _> = TryIntoParser::try_into_parser(self.as_bytes());
            p.map(|p| p.remainder()).unwrap_or(0)
        }
    }
}

fn leftovers(c: &mut Ctx, r: &mut Rng) {
    let mut st = LeftoverState::new();
    let mut total = 0;
    let mut log = vec![];
    for _ in 0..r.range(0, 8) {
        if r.chance(1, 2) {
            let n = r.size(6);
            let mut b = r.bytes(n);
            total += n;
            log.push(n as u8);
            if c.guard(|| st.append(&mut b)).is_err() {
                return;
            }
        } else {
            log.push(0xff);
            if c.guard(|| st.escape_context()).is_err() {
                return;
            }
        }
        let (l, e) = (st.len(), st.is_empty());
        c.check(l == total && e == (total == 0), || "leftover/len".into(), || format!("{log:?}: {l} of {total}"));
    }
    c.seen_u64(mon::prng::hash_bytes(&log));
}

fn floats(c: &mut Ctx, r: &mut Rng) {
    let x = model::gen_f64(r);
    let w = c.guard(|| (FUnit::try_from_f64(x).map(f64::from).ok(), FPos::try_from_f64(x).map(f64::from).ok()));
    if let Ok((a, b)) = w {
        c.check(a.map_or(true, |y| (-1.0..=1.0).contains(&y)) && b.map_or(true, |y| y >= 0.0), || "float/range".into(), || format!("{x}"));
    }
    c.check(f64::from(FUnit::MIN) == -1.0 && f64::from(FUnit::MAX) == 1.0, || "float/bounds".into(), String::new);
    c.seen_u64(x.to_bits());
}

fn codec(c: &mut Ctx, k: &TyOps, r: &mut Rng) {
    let size = r.range(0, if SLOW { 4 } else { 16 });
    let (b, _) = model::gen_input(&k.schema, r, size);
    if SLOW && b.len() > 40 {
        return;
    }
    if model::decode_all(&k.schema, &b) == Err(model::Rej::NoProgress) {
        return;
    }
    let b = boxed(&b);
    c.seen_u64(mon::prng::hash_bytes(&[k.name.as_bytes(), &b].concat()));
    for kind in KINDS {
        let w = c.guard(|| {
            let mut p = AnyP::new(kind, &b);
            let y = (k.parse)(&mut p);
            (y.ok(), p.remainder())
        });
        if let Ok((y, rem)) = w {
            c.check(rem <= b.len(), || format!("codec/{}", kind.name()), || format!("{} bytes left of {}", rem, b.len()));
            if let Some(y) = y {
                let z = y.dup();
                let _ = c.guard(|| (y.to_bytes(), z.to_bytes_full(), y.same(&*z)));
            }
        }
        if SLOW {
            break;
        }
    }
}

/// owners moved between threads: everything here is Send, nothing shares state
fn threads(c: &mut Ctx, r: &mut Rng) {
    let n = r.range(8, 24);
    let b = r.spicy_bytes(n);
    let outs: Vec<u64> = {
        let hs: Vec<_> = (0..4)
            .map(|i| {
                let b = b.clone();
                std::thread::spawn(move || {
                    let mut p = AnyP::new(KINDS[i % 3], &b);
                    let mut acc = 0u64;
                    while let Ok(x) = Dynamic::<u8, Bytes>::parse(&mut p) {
                        acc = acc.wrapping_mul(31).wrapping_add(x.to_bytes().len() as u64);
                        if p.remainder() == 0 {
                            break;
                        }
                    }
                    let z = Z::decode(&[0x80u8, 0x01][..]);
                    acc ^ z.to_bytes().len() as u64
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(u64::MAX)).collect()
    };
    c.check(outs.iter().all(|x| *x == outs[0]), || "threads".into(), || format!("{outs:?}"));
    c.seen_u64(mon::prng::hash_bytes(&b));
}

/// a `Parser` written in safe code which answers as it likes: slices of any
/// length, any `remainder`, any outcome. Whatever decodes from it may fail or
/// panic, but must not reach undefined behaviour.
struct Lying {
    r: Rng,
    back: Vec<u8>,
    left: usize,
    strict: bool,
}
impl Lying {
    fn over(&mut self) -> ParseResult<()> {
        if self.left == 0 {
            return Err(ParseError::Token(tedium::parse::error::TokenError::InvalidBoolean(3)));
        }
        self.left -= 1;
        Ok(())
    }
}
impl Parser for Lying {
    type Buffer = u64;
    fn from_buffer(seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let back = r.spicy_bytes(80);
        let strict = r.chance(1, 3);
        let left = r.range(1, 30);
        Lying { r, back, left, strict }
    }
    fn view_len(&self) -> usize {
        self.left
    }
    fn offset(&self) -> usize {
        0
    }
    fn remainder(&self) -> usize {
        self.left
    }
    fn consume_byte(&mut self) -> ParseResult<u8> {
        self.over()?;
        Ok(*self.r.pick(&self.back))
    }
    fn consume(&mut self, n: usize) -> ParseResult<&[u8]> {
        self.over()?;
        let k = match self.r.below(4) {
            _ if self.strict => n,
            0 => n,
            1 => n.saturating_sub(1),
            2 => n.saturating_add(1),
            _ => self.r.below(70),
        };
        let at = self.r.below(8);
        Ok(&self.back[at..(at.saturating_add(k)).min(80)])
    }
    fn set_fit(&mut self, _: usize) -> ParseResult<()> {
        if self.r.chance(1, 12) {
            self.left = 0;
        }
        self.over()
    }
    fn test_target(&mut self) -> ParseResult<bool> {
        if self.left == 0 {
            return Ok(true);
        }
        self.left -= 1;
        Ok(self.r.chance(1, 4))
    }
    fn enforce_target(&mut self) -> ParseResult<()> {
        Ok(())
    }
    fn cleanup(self) -> tedium::parse::cleanup::CleanupResult {
        Ok(Default::default())
    }
}
impl tedium::parse::ParserExt for Lying {
    fn skip(&mut self, n: usize) -> ParseResult<usize> {
        Ok(n)
    }
    fn skip_exactly(&mut self, _: usize) -> ParseResult<()> {
        Ok(())
    }
}

fn lying(c: &mut Ctx, r: &mut Rng) {
    use tedium::dynamic::LenPref;
    use tedium::parse::ParserExt;
    c.seen(&r.clone().u64().to_be_bytes());
    macro_rules! each {
        ($r:expr, $($t:ty),* $(,)?) => {{
            $({
                let seed = $r.u64();
                if let Ok(Ok(x)) = c.guard(|| <$t as Decode>::parse(&mut Lying::from_buffer(seed))) {
                    // what was accepted is a proper value: use all of it
                    let _ = c.guard(|| (x.encode::<Vec<u8>>(), format!("{x:?}")));
                    c.count("values decoded from lying parsers", 1);
                }
                c.count("lying parsers decoded from", 1);
            })*
        }};
    }
    each!(r, bool, u16, i64, f64, u30, i31, RangedInt<u16, 1000, 1200>, N, Z, String, Bytes, Vec<u8>, FixedBytes<0>, FixedBytes<3>, FixedBytes<33>, FixedString<4>);
    each!(r, Option<u32>, Nullable<Z>, Padded<u16, 3>, VPadded<Bytes, 3>, Sequence<Dynamic<u8, String>>, FixSeq<Option<u8>, 2>, LimSeq<Dynamic<u8, Bytes>, 3>);
    each!(r, Dynamic<u8, String>, Dynamic<u16, Bytes>, Dynamic<u30, N>, Dynamic<u8, Dynamic<u16, Sequence<u16>>>, RReserve, RGreedy, DMixed, ESparse8, EWide32);
    for _ in 0..3 {
        let mut p = Lying::from_buffer(r.u64());
        let _ = c.guard(|| {
            let a = p.skip_dynamic::<u8>().is_ok();
            let b = p.skip_dynamic::<u16>().is_ok();
            let d = p.skip_dynamic::<u30>().is_ok();
            let e = p.process_prefix::<u8>().is_ok() | p.process_prefix::<u16>().is_ok() | p.process_prefix::<u30>().is_ok();
            let f = <u8 as LenPref>::parse_as_usize(&mut p).is_ok() | <u16 as LenPref>::parse_as_usize(&mut p).is_ok() | <u30 as LenPref>::parse_as_usize(&mut p).is_ok();
            let g = p.fast_kv_search::<u16, u16, _, 2, 2>(&[0, 1], u16::from_be_bytes).is_ok();
            (a, b, d, e, f, g)
        });
        c.count("length prefixes read through a lying parser", 9);
    }
}

// ------------------------------------------------------------------ ownership
thread_local! {
    static OWNED: std::cell::RefCell<std::collections::HashSet<u64>> = Default::default();
    static SERIAL: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static TWICE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// A value of a given size which is alive exactly once: taken out of a wrapper
/// bitwise while the wrapper keeps it, it is dropped twice; forgotten, never.
struct Own<const W: usize> {
    id: u64,
    heap: std::mem::ManuallyDrop<Box<u32>>,
    _pad: [u64; W],
}
impl<const W: usize> Own<W> {
    fn new(v: u32) -> Self {
        let id = SERIAL.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        OWNED.with(|o| o.borrow_mut().insert(id));
        Own { id, heap: std::mem::ManuallyDrop::new(Box::new(v)), _pad: [id; W] }
    }
    fn whole(&self) -> bool {
        OWNED.with(|o| o.borrow().contains(&self.id)) && self._pad.iter().all(|x| *x == self.id)
    }
}
impl<const W: usize> Drop for Own<W> {
    fn drop(&mut self) {
        if OWNED.with(|o| o.borrow_mut().remove(&self.id)) {
            unsafe { std::mem::ManuallyDrop::drop(&mut self.heap) }
        } else {
            TWICE.with(|t| t.set(t.get() + 1));
        }
    }
}
impl<const W: usize> Clone for Own<W> {
    fn clone(&self) -> Self {
        Own::new(**self.heap)
    }
}
impl<const W: usize> Default for Own<W> {
    fn default() -> Self {
        Own::new(9)
    }
}
impl<const W: usize> PartialEq for Own<W> {
    fn eq(&self, o: &Self) -> bool {
        **self.heap == **o.heap
    }
}
impl<const W: usize> Encode for Own<W> {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        (**self.heap).write_to(buf)
    }
}
impl<const W: usize> Decode for Own<W> {
    fn parse<P: Parser>(p: &mut P) -> tedium::parse::ParseResult<Self> {
        Ok(Own::new(u32::parse(p)?))
    }
}
impl<const W: usize> tedium::FixedLength for Own<W> {
    const LEN: usize = 4;
}

fn owning<const W: usize>(c: &mut Ctx, r: &mut Rng) {
    let v = r.u64() as u32 | 1;
    let n = r.below(6);
    let cut = r.below(26);
    c.seen_u64(mon::prng::hash_bytes(&[W as u8, (W >> 8) as u8, n as u8, cut as u8, (v >> 8) as u8]));
    let out = c.guard(|| {
        let mut bad: Vec<&'static str> = vec![];
        let mut is = |what: &'static str, ok: bool| {
            if !ok {
                bad.push(what)
            }
        };
        macro_rules! same {
            ($what:literal, $x:expr) => {{
                let ok = |x: &Own<W>| x.whole() && **x.heap == v;
                is($what, ok(&$x));
            }};
        }
        let mk = || Own::<W>::new(v);
        same!("AutoBox::into_inner", AutoBox::new(mk()).into_inner());
        same!("AutoBox::into_box", AutoBox::from(mk()).into_box());
        same!("AutoBox::from_boxed", AutoBox::from_boxed(Box::new(mk())).into_inner());
        same!("AutoBox::From<Box>", AutoBox::from(Box::new(mk())).as_inner());
        same!("AutoBox::clone", AutoBox::new(mk()).clone().into_inner());
        let mut a = AutoBox::<Own<W>>::default();
        *a.as_mut_inner() = mk();
        *a.as_mut_boxed() = Box::new(mk());
        same!("AutoBox::as_mut", AsMut::<Own<W>>::as_mut(&mut a));
        drop(a);
        same!("Padded::into_inner", Padded::<_, 3>::new(mk()).into_inner());
        let mut a = Padded::<_, 2>::from(Own::<W>::default());
        *a.as_mut_inner() = mk();
        same!("Padded::clone", a.clone().into_inner());
        same!("Padded::with_padding", Padded::<Own<W>, 9>::with_padding::<4>(mk()).into_inner());
        same!("VPadded::into_inner", VPadded::<_, 3>::new(mk()).clone().into_inner());
        let mut a = Dynamic::<u8, _>::new(Own::<W>::default());
        *AsMut::<Own<W>>::as_mut(&mut a) = mk();
        same!("Dynamic::into_inner", a.clone().into_inner());
        let mut a = Nullable::from(Own::<W>::default());
        *a.as_mut_inner() = Some(mk());
        same!("Nullable::into_inner", a.clone().into_inner().unwrap());
        *a.as_mut_inner() = None;
        is("Nullable::none", Option::<Own<W>>::from(a).is_none());
        // sequences
        let many = || (0..n).map(|_| mk()).collect::<Vec<_>>();
        let mut s = LimSeq::<Own<W>, 6>::try_from(many()).unwrap();
        is("LimSeq", s.len() == n && s.iter().all(|x| x.whole() && **x.heap == v));
        let t = s.clone();
        is("LimSeq::extend", std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.extend(many()))).is_ok() == (2 * n <= 6) && s.iter().all(Own::whole));
        let mut it = t.into_iter();
        is("LimSeq::into_iter", it.next().map_or(n == 0, |x| x.whole()));
        drop(it);
        is("LimSeq::into", Vec::from(s).iter().all(Own::whole));
        let s = FixSeq::<Own<W>, 6>::try_from(many());
        let s = s.map(|s| (s.clone().into_iter().take(2).all(|x| x.whole()), Vec::from(s).iter().all(Own::whole)));
        is("FixSeq", s.map_or(true, |s| s == (true, true)));
        let s: Sequence<Own<W>> = many().into();
        is("Sequence", s.clone().into_iter().skip(1).all(|x| x.whole()) && s.iter().all(Own::whole));
        // decoded whole, in part, or not at all
        let mut b = vec![0u8; 24];
        b.truncate(cut);
        for kind in KINDS {
            let mut p = AnyP::new(kind, &b);
            let _ = LimSeq::<Own<W>, 4>::parse(&mut p).map(|s| is("LimSeq::decode", s.iter().all(Own::whole)));
            let mut p = AnyP::new(kind, &b);
            let _ = FixSeq::<Own<W>, 3>::parse(&mut p).map(|s| is("FixSeq::decode", s.iter().all(Own::whole)));
            let mut p = AnyP::new(kind, &b);
            let _ = Sequence::<AutoBox<Own<W>>>::parse(&mut p).map(|s| is("Sequence::decode", s.iter().all(|x| x.as_inner().whole())));
            let mut p = AnyP::new(kind, &b);
            let _ = Nullable::<Option<Own<W>>>::parse(&mut p).map(|x| is("Option::decode", x.as_inner().as_ref().and_then(|x| x.as_ref()).map_or(true, Own::whole)));
        }
        bad
    });
    let lost = OWNED.with(|o| std::mem::take(&mut *o.borrow_mut())).len();
    let twice = TWICE.with(|t| t.replace(0));
    c.count("owned values followed", 1);
    match out {
        Ok(bad) => {
            c.check(bad.is_empty(), || format!("owned/{}", bad.first().unwrap_or(&"")), || format!("{W} words: {bad:?}"));
            c.check(lost == 0, || "owned/never-dropped".into(), || format!("{lost} values of {W} words are never dropped"));
        }
        Err(p) => c.violation("owned/panic", p.0),
    }
    c.check(twice == 0, || "owned/dropped-twice".into(), || format!("{twice} values of {W} words dropped twice"));
}

fn main() {
    let mut c = Ctx::from_args("C09");
    let only: Option<String> = c.prop.split_once('/').map(|x| x.1.to_string());
    let on = |s: &str| only.as_deref().map_or(true, |o| o.split('+').any(|x| x == s));
    let _ = VecDeque::<u8>::new();
    // (quick, thorough) counts natively; the interpreter gets its own
    macro_rules! go {
        ($name:expr, $q:expr, $t:expr, $m:expr, $f:expr) => {
            if on($name) {
                let n = if SLOW { c.n($m, $m * 12) } else { c.n($q, $t) };
                c.cases($name, n, $f);
            }
        };
    }
    go!("bufs", 4000, 60_000, 24, bufs);
    go!("parsers", 12_000, 300_000, 120, parsers);
    go!("seqs/0", 1500, 30_000, 40, seqs::<0>);
    go!("seqs/1", 1500, 30_000, 40, seqs::<1>);
    go!("seqs/3", 2500, 50_000, 70, seqs::<3>);
    go!("seqs/8", 1500, 30_000, 40, seqs::<8>);
    go!("owning-small", 4000, 60_000, 12, |c: &mut Ctx, r: &mut Rng| match r.below(7) {
        0 => owning::<0>(c, r),
        1 => owning::<1>(c, r),
        2 => owning::<2>(c, r),
        3 => owning::<3>(c, r),
        4 => owning::<6>(c, r),
        5 => owning::<7>(c, r),
        _ => owning::<14>(c, r),
    });
    go!("owning-large", 4000, 60_000, 12, |c: &mut Ctx, r: &mut Rng| match r.below(9) {
        0 => owning::<15>(c, r),
        1 => owning::<30>(c, r),
        2 => owning::<31>(c, r),
        3 => owning::<33>(c, r),
        4 => owning::<40>(c, r),
        5 => owning::<64>(c, r),
        6 => owning::<127>(c, r),
        7 => owning::<200>(c, r),
        _ => owning::<513>(c, r),
    });
    go!("fixed/0", 500, 8000, 40, fixed::<0>);
    go!("fixed/1", 500, 8000, 40, fixed::<1>);
    go!("fixed/4", 1500, 20_000, 60, fixed::<4>);
    go!("fixed/33", 1500, 20_000, 30, fixed::<33>);
    go!("zarith", 5000, 100_000, 120, zarith);
    go!("targets", 5000, 60_000, 100, targets);
    go!("text", 5000, 100_000, 80, text);
    go!("leftovers", 3000, 50_000, 100, leftovers);
    go!("lying", 4000, 80_000, 25, lying);
    go!("floats", 2000, 20_000, 60, floats);
    go!("threads", 150, 2000, 10, threads);
    if SLOW {
        let types = vec![
            TyOps::of::<Dynamic<u8, String>>(),
            TyOps::of::<Option<Dynamic<u8, Bytes>>>(),
            TyOps::of::<FixSeq<Dynamic<u8, Bytes>, 2>>(),
            TyOps::of::<Dynamic<u8, LimSeq<u32, 6>>>(),
            TyOps::of::<RReserve>(),
            TyOps::of::<DMixed>(),
        ];
        for k in &types {
            go!("codec", 0, 0, 40, |c, r| codec(c, k, r));
        }
    } else {
        let types = mon::ops::universe();
        for k in &types {
            if on("codec") {
                let n = c.n(150, 4000);
                c.cases(&format!("codec/{}", k.name), n, |c, r| codec(c, k, r));
            }
        }
    }
    c.finish()
}
