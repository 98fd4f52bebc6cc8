//! Codec monitors over the whole type universe: C01 C02 C03 C04 C06 C07 C10.
use mon::alloc;
use mon::errs;
use mon::model::{self, Cursor, Rej, Schema, Value};
use mon::monparser::{check_log, Ev, BUDGET_MSG};
use mon::ops::{universe, AnyP, AnyT, Kind, Obj, TyOps, KINDS, NTARGETS, TARGET_NAMES};
use mon::prng::Rng;
use mon::rep::{hex, Ctx};
use tedium::{FixedLength, Parser};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

type Case = TyOps;

fn bp(b: &[u8]) -> AnyP<'_> {
    AnyP::new(Kind::Byte, b)
}
fn mp(b: &[u8]) -> AnyP<'_> {
    AnyP::new(Kind::Memo, b)
}
fn sp(b: &[u8]) -> AnyP<'_> {
    AnyP::new(Kind::Slice, b)
}

fn has_nan(v: &Value) -> bool {
    match v {
        Value::F64(b) => f64::from_bits(*b).is_nan(),
        Value::Opt(Some(x)) => has_nan(x),
        Value::List(xs) | Value::Struct(xs) => xs.iter().any(has_nan),
        Value::Enum(_, x) => has_nan(x),
        _ => false,
    }
}

/// build the library value for a model value; failure to do so is a violation
fn build(c: &mut Ctx, k: &Case, v: &Value) -> Option<Box<dyn Obj>> {
    match c.guard(|| (k.make)(v)) {
        Ok(x) => Some(x),
        Err(p) => {
            c.violation(format!("{}:construct-refused", k.name), format!("value {:?}: {}", v, p.0));
            None
        }
    }
}

// ------------------------------------------------------------------------ C01
fn c01(c: &mut Ctx, k: &Case, r: &mut Rng) {
    let size = if r.chance(1, 50) { 280 } else { r.range(0, 24) };
    let v = model::gen(&k.schema, r, size);
    let Some(x) = build(c, k, &v) else { return };
    let back = c.guard(|| x.value());
    match back {
        Ok(b) if b == v => {}
        b => return c.violation(format!("{}:construct", k.name), format!("put in {:?}, holds {:?}", v, b)),
    }
    let bytes = match c.guard(|| x.to_bytes()) {
        Ok(b) => b,
        Err(p) => return c.violation(format!("{}:encode-panic", k.name), format!("{:?}: {}", v, p.0)),
    };
    c.seen(format!("{}{}", k.name, hex(&bytes)).as_bytes());
    c.sample(|| format!("{} {:?} <-> {}", k.name, v, hex(&bytes)));
    let lead = r.below(4);
    let trail = if model::greedy(&k.schema) { 0 } else { r.below(6) };
    let mut buf = r.spicy_bytes(lead);
    buf.extend(&bytes);
    buf.extend(r.spicy_bytes(trail));
    // (parser, windowed?) – inside a window anything may follow
    let extra = r.spicy_bytes(3);
    let mut wbuf = buf.clone();
    wbuf.extend(&extra);
    macro_rules! run {
        ($mk:expr, $pn:expr, $win:expr) => {{
            let win: bool = $win;
            let b: &[u8] = if win { &wbuf } else { &buf };
            let lead_n = lead;
            let blen = bytes.len();
            let out = c.guard(|| {
                let mut p = $mk(b);
                for _ in 0..lead_n {
                    p.consume_byte().unwrap();
                }
                if win {
                    p.set_fit(blen + trail).unwrap();
                }
                let y = (k.parse)(&mut p);
                let rem = p.remainder();
                (y.map(|y| (y.value(), y)), rem)
            });
            match out {
                Ok((Ok((yv, y)), rem)) => {
                    if yv != v || (!has_nan(&v) && !y.same(&*x)) {
                        c.violation(format!("{}:value:{}", k.name, $pn), format!("{:?} -> {} -> {:?}", v, hex(&bytes), yv));
                    } else if rem != trail {
                        c.violation(format!("{}:consumed:{}", k.name, $pn), format!("{:?} -> {}: {} bytes left, expected {}", v, hex(&bytes), rem, trail));
                    }
                }
                Ok((Err(e), _)) => c.violation(format!("{}:rejected:{}", k.name, $pn), format!("{:?} -> {} -> {:?}", v, hex(&bytes), e)),
                Err(p) => c.violation(format!("{}:panic:{}", k.name, $pn), format!("{:?} -> {}: {}", v, hex(&bytes), p.0)),
            }
            c.count("round trips observed", 1);
        }};
    }
    run!(bp, "byte", false);
    run!(bp, "byte", true);
    run!(mp, "memo", r.chance(1, 2));
    run!(sp, "slice", r.chance(1, 2));
}

// ------------------------------------------------------------------------ C02
fn c02(c: &mut Ctx, k: &Case, r: &mut Rng) {
    let size = if r.chance(1, 50) { 280 } else { r.range(0, 24) };
    let v = model::gen(&k.schema, r, size);
    let Some(x) = build(c, k, &v) else { return };
    let mut want = vec![];
    model::encode(&k.schema, &v, &mut want).expect("generated values are encodable");
    let out = c.guard(|| {
        let a = x.to_bytes();
        let b = x.encode_vec();
        let mut d = vec![0xEE];
        x.write_to_vec(&mut d);
        (a, b, d)
    });
    c.seen(format!("{}{}", k.name, hex(&want)).as_bytes());
    c.sample(|| format!("{} {:?} = {}", k.name, v, hex(&want)));
    c.count("bytes compared", want.len() as u64);
    match out {
        Ok((a, b, d)) => {
            if a != want || b != want || d[0] != 0xEE || d[1..] != want[..] {
                c.violation(
                    format!("{}:bytes", k.name),
                    format!("{:?}: format says {}, to_bytes {}, encode {}, write_to_vec {}", v, hex(&want), hex(&a), hex(&b), hex(&d)),
                );
            }
        }
        Err(p) => c.violation(format!("{}:panic", k.name), format!("{:?}: {}", v, p.0)),
    }
}

fn reference(k: &Case, b: &[u8]) -> (Result<Value, Rej>, usize, Vec<(usize, usize)>, u64) {
    let mut cur = Cursor::new(b);
    cur.cfg.check_padding = cfg!(feature = "check_padding");
    let r = model::decode(&k.schema, &mut cur);
    (r, cur.rem(), cur.windows.clone(), cur.steps)
}

fn rej_kind(r: &Rej) -> &'static str {
    match r {
        Rej::Short { .. } => "short",
        Rej::Window { .. } => "window",
        Rej::Residue { .. } => "residue",
        Rej::Bool(_) => "bool",
        Rej::Tag { .. } => "tag",
        Rej::IntRange { .. } => "intrange",
        Rej::FloatRange { .. } => "floatrange",
        Rej::Unterminated(_) => "unterminated",
        Rej::Count { .. } => "count",
        Rej::Padding(_) => "padding",
        Rej::NoProgress => "noprogress",
    }
}

fn outcome(k: &Case, mut p: AnyP) -> (Result<Value, String>, usize) {
    let y = (k.parse)(&mut p);
    let y = match y {
        Ok(y) => Ok(y.value()),
        Err(e) => Err(errs::class(&e)),
    };
    let rem = p.remainder();
    (y, rem)
}

// ------------------------------------------------------------------------ C03
fn c03(c: &mut Ctx, k: &Case, r: &mut Rng) {
    let size = if r.chance(1, 50) { 280 } else { r.range(0, 20) };
    let (b, how) = model::gen_input(&k.schema, r, size);
    let (want, wrem, _, _) = reference(k, &b);
    if want == Err(Rej::NoProgress) {
        return;
    }
    c.seen(format!("{}{}", k.name, hex(&b)).as_bytes());
    c.count(&format!("inputs:{how}"), 1);
    match &want {
        Ok(_) => c.count("accepted by the format", 1),
        Err(e) => c.count(&format!("rejected by the format:{}", rej_kind(e)), 1),
    }
    c.sample(|| format!("{} {} ({how}) => {:?}", k.name, hex(&b), want));
    macro_rules! run {
        ($mk:expr, $pn:expr) => {
            match (c.guard(|| outcome(k, $mk(&b))), &want) {
                (Ok((Ok(y), rem)), Ok(v)) => {
                    if y != *v {
                        c.violation(format!("{}:value:{}", k.name, $pn), format!("{} ({how}): format denotes {:?}, decoded {:?}", hex(&b), v, y));
                    } else if rem != wrem {
                        c.violation(format!("{}:consumed:{}", k.name, $pn), format!("{} ({how}): {} bytes left, expected {}", hex(&b), rem, wrem));
                    }
                }
                (Ok((Err(_), _)), Err(_)) => {}
                (Ok((Ok(y), _)), Err(e)) => {
                    c.violation(format!("{}:accepted-{}:{}", k.name, rej_kind(e), $pn), format!("{} ({how}): format rejects ({:?}), decoded {:?}", hex(&b), e, y))
                }
                (Ok((Err(e), _)), Ok(v)) => c.violation(format!("{}:rejected:{}", k.name, $pn), format!("{} ({how}): denotes {:?}, got error {}", hex(&b), v, e)),
                (Err(p), w) => c.violation(format!("{}:panic:{}", k.name, $pn), format!("{} ({how}): panic {} where the format says {:?}", hex(&b), p.0, w)),
            }
        };
    }
    run!(bp, "byte");
    match r.below(3) {
        0 => run!(mp, "memo"),
        _ => run!(sp, "slice"),
    }
    // the public entry point agrees about acceptance
    if !cfg!(feature = "check_complete_parse") {
        let bb = b.clone();
        match c.guard(move || (k.try_decode)(bb).map(|y| y.value()).map_err(|e| format!("{e:?}"))) {
            Ok(Ok(y)) if want.as_ref() == Ok(&y) => {}
            Ok(Err(_)) if want.is_err() => {}
            o => c.violation(format!("{}:try_decode", k.name), format!("{} ({how}): format {:?}, try_decode {:?}", hex(&b), want, o)),
        }
    }
}

// ------------------------------------------------------------------------ C04
fn hostile(k: &Case, r: &mut Rng, big: bool) -> (Vec<u8>, &'static str) {
    let len = if big { r.range(1000, 60_000) } else { r.size(64) };
    match r.below(if big { 13 } else { 11 }) {
        10..=12 => {
            // windows whose announced length is there, nested or not, around bytes of any kind
            let len = if big { r.large().min(200_000) } else { len };
            let body = match r.below(4) {
                0 => vec![0; len],
                1 => vec![0xff; len],
                2 => (0..len).map(|_| b'a' + r.below(26) as u8).collect(),
                _ => r.spicy_bytes(len),
            };
            let (mut b, mut l) = (body, len);
            for _ in 0..r.range(1, 3) {
                let mut p = match r.below(6) {
                    0 if l < 256 => vec![l as u8],
                    1 if l < 65536 => (l as u16).to_be_bytes().to_vec(),
                    2 => [&[0xff][..], &(l as u32).to_be_bytes()].concat(),
                    _ => (l as u32).to_be_bytes().to_vec(),
                };
                p.append(&mut b);
                b = p;
                l = b.len();
            }
            if r.chance(1, 3) {
                b.extend(r.spicy_bytes(9));
            }
            (b, "true-window")
        }
        9 => {
            // a long but terminated integer, bare or length-prefixed
            let n = if big { len } else { *r.pick(&[60usize, 127, 128, 255, 256, 257, 600, 1000, 2000]) + r.below(3) };
            let fill = r.u8() | 0x80;
            let mut g: Vec<u8> = if r.chance(1, 2) { vec![fill; n] } else { r.bytes(n).iter().map(|x| x | 0x80).collect() };
            g.push(r.range(1, 0x7f) as u8);
            let l = g.len();
            let mut b = match r.below(5) {
                0 => (l as u16).to_be_bytes().to_vec(),
                1 => (l as u32).to_be_bytes().to_vec(),
                2 => vec![0xff],
                _ => vec![],
            };
            b.extend(g);
            (b, "long-integer")
        }
        0 => (vec![0xff; len], "all-ff"),
        1 => (vec![0x00; len], "all-00"),
        2 => (vec![0x80; len], "all-80"),
        3 => {
            let mut b = vec![0xff, 0xff, 0xff, 0xff, 0x7f, 0xff, 0xff, 0xff, 0x3f, 0xff, 0xff, 0xff];
            let s = r.below(b.len());
            b.drain(..s);
            b.extend(r.spicy_bytes(len.min(16)));
            (b, "huge-prefix")
        }
        4 => (r.spicy_bytes(len), "spicy"),
        5 => {
            // a valid prefix then garbage
            let sz = r.range(0, 16);
            let v = model::gen(&k.schema, r, sz);
            let mut b = vec![];
            model::encode(&k.schema, &v, &mut b).ok();
            let cut = r.below(b.len() + 1);
            b.truncate(cut);
            b.extend(r.spicy_bytes(len.min(2000)));
            (b, "valid-then-garbage")
        }
        6 => {
            // repetition of a small motif
            let n = r.range(1, 5);
            let m = r.spicy_bytes(n);
            (m.iter().cycle().take(len).copied().collect(), "motif")
        }
        _ => {
            let sz = r.range(0, 30);
            model::gen_input(&k.schema, r, sz)
        }
    }
}

fn depth_bound(s: &Schema, b: &[u8]) -> bool {
    // recursive types nest as deep as the input allows: keep those inputs small
    fn rec(s: &Schema) -> bool {
        match s {
            Schema::Lazy(_) => true,
            Schema::Opt(t) | Schema::Nullable(t) | Schema::Padded(t, _) | Schema::VPad(t, _) | Schema::Dyn(_, t) | Schema::Seq(t) | Schema::LimSeq(t, _) | Schema::FixSeq(t, _) => rec(t),
            Schema::Struct(fs) => fs.iter().any(rec),
            Schema::Enum(_, vs) => vs.iter().any(|(_, f)| rec(f)),
            _ => false,
        }
    }
    !rec(s) || b.len() <= 400
}

fn c04(c: &mut Ctx, k: &Case, r: &mut Rng, big: bool) {
    let (b, how) = hostile(k, r, big);
    if !depth_bound(&k.schema, &b) {
        return;
    }
    if !big && reference(k, &b).0 == Err(Rej::NoProgress) {
        return;
    }
    c.seen(format!("{}{}", k.name, hex(&b)).as_bytes());
    c.count(&format!("inputs:{how}"), 1);
    c.sample(|| format!("{} {} bytes {} ({how})", k.name, b.len(), hex(&b[..b.len().min(24)])));
    // logical steps: bounded by the input length
    let budget = 20_000 + 100 * b.len() as u64;
    let steps = c.guard(|| {
        let mut p = AnyP::logged(Kind::Slice, &b, budget);
        p.mon().record = false;
        let ok = (k.parse)(&mut p).is_ok();
        (ok, p.mon().steps.get())
    });
    match steps {
        Ok((ok, n)) => {
            c.count("primitive parser steps observed", n);
            c.count(if ok { "ended with a value" } else { "ended with an error" }, 1);
        }
        Err(p) if p.0.contains(BUDGET_MSG) => {
            return c.violation(format!("{}:no-progress", k.name), format!("{} bytes {} ({how}): more than {budget} primitive steps", b.len(), hex(&b[..b.len().min(64)])));
        }
        Err(p) => return c.violation(format!("{}:panic:mon", k.name), format!("{} bytes {} ({how}): {}", b.len(), hex(&b[..b.len().min(200)]), p.0)),
    }
    let bound = 256 * 1024 + 4096 * b.len();
    macro_rules! run {
        ($mk:expr, $pn:expr) => {{
            let base = alloc::reset();
            let out = c.guard(|| {
                let mut p = $mk(&b);
                let r = (k.parse)(&mut p);
                let peak = alloc::peak_since(base);
                // errors and values must be droppable and displayable too
                match &r {
                    Ok(_) => {}
                    Err(e) => {
                        let _ = format!("{e}");
                    }
                }
                peak
            });
            match out {
                Ok(peak) => {
                    if peak > bound {
                        c.violation(format!("{}:memory:{}", k.name, $pn), format!("{} bytes {} ({how}): peak {} bytes of live memory", b.len(), hex(&b[..b.len().min(64)]), peak));
                    }
                }
                Err(p) => c.violation(format!("{}:panic:{}", k.name, $pn), format!("{} bytes {} ({how}): {}", b.len(), hex(&b[..b.len().min(200)]), p.0)),
            }
        }};
    }
    run!(bp, "byte");
    run!(sp, "slice");
    if !big {
        run!(mp, "memo");
    }
    let bb = b.clone();
    if let Err(p) = c.guard(move || (k.try_decode)(bb).is_ok()) {
        c.violation(format!("{}:panic:try_decode", k.name), format!("{} ({how}): {}", hex(&b[..b.len().min(200)]), p.0));
    }
}

/// the reading primitives a decoder is written with, given lengths taken from hostile input
fn c04_reads(c: &mut Ctx, r: &mut Rng) {
    use tedium::parse::ParserExt;
    let len = r.size(40);
    let mut b = r.spicy_bytes(len);
    if r.chance(1, 3) {
        // a huge prefix
        let at = r.below(b.len() + 1);
        let w = *r.pick(&[1usize, 2, 4, 8]);
        let ff = r.u8() | 0x7f;
        b.splice(at..at, std::iter::once(ff).chain(std::iter::repeat(0xff).take(w - 1)));
    }
    let kind = *r.pick(&KINDS);
    let n = match r.below(8) {
        0 => r.below(b.len() + 2),
        1 => u32::MAX as usize - r.below(3),
        2 => 1 << 30,
        3 => isize::MAX as usize + r.below(3) - 1,
        4 => 1usize << r.below(64),
        5 => (1usize << 32) + r.below(9),
        _ => usize::MAX - r.below(12),
    };
    let ops: Vec<usize> = (0..r.range(1, 4)).map(|_| r.below(13)).collect();
    let win = r.below(b.len() + 1);
    let windowed = r.chance(1, 3);
    let what = format!("{} {} ops {ops:?} n={n:#x} window {}", kind.name(), hex(&b), if windowed { win as isize } else { -1 });
    c.seen(what.as_bytes());
    c.sample(|| what.clone());
    // what a call may allocate: a few copies of the input
    let bound = 16 * 1024 + 64 * b.len();
    let out = c.guard(|| {
        let mut p = AnyP::new(kind, &b);
        if windowed {
            let _ = p.set_fit(win);
        }
        let mut worst = (0, 0);
        for op in &ops {
            let base = alloc::reset();
            match op {
                0 => drop(p.take_dynamic(n)),
                1 => drop(p.consume(n).map(|x| x.len())),
                2 => drop(p.set_fit(n)),
                3 => drop(ParserExt::skip(&mut p, n)),
                4 => drop(p.skip_exactly(n)),
                5 => drop(p.skip_dynamic::<u8>()),
                6 => drop(p.skip_dynamic::<tedium::u30>()),
                7 => drop(p.process_prefix::<u16>()),
                8 => drop(p.process_prefix::<tedium::u30>()),
                9 => drop(p.take_self_terminating(|x| x < 0x80)),
                10 => drop(p.take_fixed::<4096>().is_ok()),
                11 => drop(p.consume_arr::<64>().is_ok()),
                _ => {
                    // a length read from the input itself
                    let l = p.take_u64().unwrap_or(u64::MAX);
                    drop(p.take_dynamic(l as usize))
                }
            }
            let peak = alloc::peak_since(base);
            if peak > worst.1 {
                worst = (*op, peak)
            }
        }
        worst
    });
    c.count("hostile primitive reads", ops.len() as u64);
    match out {
        Ok((op, peak)) => c.check(peak <= bound, || format!("reads:memory:op{op}:{}", kind.name()), || format!("{what}: peak {peak} bytes of live memory")),
        Err(p) => c.violation(format!("reads:panic:{}", kind.name()), format!("{what}: {}", p.0)),
    }
}

/// bounded sequences whose bound is far larger than any input: what decoding costs goes by
/// the input, not by the bound, and what it yields is what an unbounded sequence yields
#[cfg(not(any(feature = "arrayvec_limseq", feature = "arrayvec_fixseq")))]
fn c04_bounds(c: &mut Ctx, r: &mut Rng) {
    use mon::ty::Ty;
    use tedium::{FixSeq, LimSeq, u30, Decode, Dynamic, Sequence};
    let len = if r.chance(1, 40) { r.below(6000) } else { r.size(40) };
    let mut b = r.spicy_bytes(len);
    match r.below(4) {
        // prefixes that fit, and payloads of nothing
        0 => b.fill(0),
        1 => b = [&(len.min(255) as u8).to_be_bytes()[..], &b[..len.min(255)]].concat(),
        2 => b = [&(len.min(255) as u32).to_be_bytes()[..], &b[..len.min(255)]].concat(),
        _ => {}
    }
    let bound = 16 * 1024 + 512 * b.len();
    c.seen(&b);
    c.sample(|| format!("{} bytes {}", b.len(), hex(&b[..b.len().min(24)])));
    macro_rules! one {
        ($t:ty, $like:ty) => {
            for (kind, kn) in KINDS.iter().map(|k| (*k, k.name())) {
                let name = stringify!($t);
                // what the same bytes are without the bound
                let want = {
                    let mut p = AnyP::new(kind, &b);
                    let v = <$like as Decode>::parse(&mut p).map(|x| x.value());
                    (v.map_err(|e| errs::class(&e)), p.remainder())
                };
                let base = alloc::reset();
                let got = c.guard(|| {
                    let mut p = AnyP::new(kind, &b);
                    let v = <$t as Decode>::parse(&mut p);
                    let peak = alloc::peak_since(base);
                    (v.map(|x| x.value()).map_err(|e| errs::class(&e)), p.remainder(), peak)
                });
                match got {
                    Err(p) => c.violation(format!("bounds:panic:{name}:{kn}"), format!("{} bytes {}: {}", b.len(), hex(&b[..b.len().min(64)]), p.0)),
                    Ok((v, rem, peak)) => {
                        c.check(peak <= bound, || format!("bounds:memory:{name}:{kn}"), || format!("{} bytes {}: peak {peak} bytes of live memory", b.len(), hex(&b[..b.len().min(64)])));
                        c.check((&v, rem) == (&want.0, want.1), || format!("bounds:outcome:{name}:{kn}"), || format!("{} bytes {}: {:.200?}, unbounded {:.200?}", b.len(), hex(&b[..b.len().min(64)]), (&v, rem), want));
                    }
                }
            }
        };
    }
    one!(LimSeq<u8, 0x4000_0000>, Sequence<u8>);
    one!(LimSeq<u64, { usize::MAX }>, Sequence<u64>);
    one!(Dynamic<u8, LimSeq<u32, { 1 << 61 }>>, Dynamic<u8, Sequence<u32>>);
    one!(Dynamic<u30, LimSeq<Option<u8>, { usize::MAX }>>, Dynamic<u30, Sequence<Option<u8>>>);
    one!(Sequence<Dynamic<u8, LimSeq<u64, 8191>>>, Sequence<Dynamic<u8, Sequence<u64>>>);
    macro_rules! short {
        ($t:ty) => {
            for (kind, kn) in KINDS.iter().map(|k| (*k, k.name())) {
                let name = stringify!($t);
                let base = alloc::reset();
                let got = c.guard(|| {
                    let mut p = AnyP::new(kind, &b);
                    let ok = <$t as Decode>::parse(&mut p).is_ok();
                    (ok, alloc::peak_since(base))
                });
                match got {
                    Err(p) => c.violation(format!("bounds:panic:{name}:{kn}"), format!("{} bytes {}: {}", b.len(), hex(&b[..b.len().min(64)]), p.0)),
                    Ok((ok, peak)) => {
                        c.check(peak <= bound, || format!("bounds:memory:{name}:{kn}"), || format!("{} bytes {}: peak {peak} bytes of live memory", b.len(), hex(&b[..b.len().min(64)])));
                        c.check(!ok, || format!("bounds:outcome:{name}:{kn}"), || format!("{} bytes decoded as that many elements", b.len()));
                    }
                }
            }
        };
    }
    short!(FixSeq<u8, 0x4000_0000>);
    short!(FixSeq<u64, { usize::MAX }>);
    short!(Dynamic<u8, FixSeq<u16, { 1 << 62 }>>);
    c.count("decoded against bounds far beyond the input", 1);
}
#[cfg(any(feature = "arrayvec_limseq", feature = "arrayvec_fixseq"))]
fn c04_bounds(_: &mut Ctx, _: &mut Rng) {}

// ------------------------------------------------------------------------ C06
fn c06(c: &mut Ctx, k: &Case, r: &mut Rng) {
    let size = if r.chance(1, 50) { 280 } else { r.range(0, 20) };
    let (b, how) = model::gen_input(&k.schema, r, size);
    if reference(k, &b).0 == Err(Rej::NoProgress) {
        return;
    }
    let nested = r.chance(1, 3);
    let (lead, win) = if nested { (r.below(3), r.below(b.len() + 1)) } else { (0, 0) };
    let mut outs: Vec<(&str, Result<(Result<Value, String>, usize, usize), String>)> = vec![];
    macro_rules! run {
        ($mk:expr, $pn:expr) => {{
            let o = c.guard(|| {
                let mut p = $mk(&b);
                let mut pre = 0usize;
                if nested {
                    for _ in 0..lead.min(b.len()) {
                        pre += p.consume_byte().is_ok() as usize;
                    }
                    pre += p.set_fit(win).is_ok() as usize * 100;
                }
                let y = (k.parse)(&mut p);
                let y = match y {
                    Ok(y) => Ok(y.value()),
                    Err(e) => Err(errs::class(&e)),
                };
                (y, p.remainder(), pre)
            });
            outs.push(($pn, o.map_err(|p| p.0)));
        }};
    }
    run!(bp, "byte");
    run!(mp, "memo");
    run!(sp, "slice");
    c.seen(format!("{}{}{}{}", k.name, hex(&b), lead, win).as_bytes());
    c.count(&format!("inputs:{how}"), 1);
    match &outs[0].1 {
        Ok((Ok(_), ..)) => c.count("all three decoded a value", 1),
        Ok((Err(e), ..)) => c.count(&format!("all three failed with {}", errs::head(e)), 1),
        Err(_) => c.count("panics", 1),
    }
    c.sample(|| format!("{} {} ({how}) => {:?}", k.name, hex(&b), outs[0].1));
    for i in 1..3 {
        let same = match (&outs[0].1, &outs[i].1) {
            // the remaining count after a failed decode is unspecified beyond each parser's own contract
            (Ok((Err(a), _, x)), Ok((Err(b), _, y))) => a == b && x == y,
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same {
            let kind = |o: &Result<(Result<Value, String>, usize, usize), String>| match o {
                Ok((Ok(_), ..)) => "ok".to_string(),
                Ok((Err(e), ..)) => errs::head(e).to_string(),
                Err(_) => "panic".to_string(),
            };
            c.violation(
                format!("{}:{}-vs-{}:{}-{}", k.name, outs[0].0, outs[i].0, kind(&outs[0].1), kind(&outs[i].1)),
                format!("{} ({how}, lead {lead}, window {win}): {} {:?}; {} {:?}", hex(&b), outs[0].0, outs[0].1, outs[i].0, outs[i].1),
            );
        }
    }
}

// ------------------------------------------------------------------------ C07
fn c07(c: &mut Ctx, k: &Case, r: &mut Rng) {
    let size = if r.chance(1, 30) { 280 } else { r.range(0, 24) };
    let v = model::gen(&k.schema, r, size);
    let Some(x) = build(c, k, &v) else { return };
    let known = k.known;
    let out = c.guard(|| {
        let bytes = x.to_bytes();
        let mut ret: Vec<(String, usize)> = vec![];
        for i in 0..NTARGETS {
            let mut t = AnyT::make(i);
            ret.push((format!("write_to {}", TARGET_NAMES[i]), x.write(&mut t)));
        }
        ret.push(("enc_len".into(), x.enc_len()));
        ret.push(("to_bytes_full".into(), x.to_bytes_full().len()));
        ret.push(("estimate".into(), x.estimate()));
        match known {
            Some(n) => ret.push(("KNOWN".into(), n)),
            None => ret.push(("unknown".into(), x.unknown())),
        }
        (bytes, ret)
    });
    match out {
        Err(p) => c.violation(format!("{}:panic", k.name), format!("{:?}: {}", v, p.0)),
        Ok((bytes, rets)) => {
            c.seen(format!("{}{}", k.name, hex(&bytes)).as_bytes());
            c.sample(|| format!("{} {:?}: {} bytes, {:?}", k.name, v, bytes.len(), rets));
            for (what, n) in rets {
                c.count("lengths compared", 1);
                if n != bytes.len() {
                    c.violation(format!("{}:{}", k.name, what), format!("{:?} = {} ({} bytes) but {} says {}", v, hex(&bytes), bytes.len(), what, n));
                }
            }
            // length prefixes
            for (wi, pl, max, n) in [(0, <u8 as FixedLength>::LEN, 255usize, "u8"), (1, <u16 as FixedLength>::LEN, 65535, "u16"), (2, <tedium::u30 as FixedLength>::LEN, 0x3fff_ffff, "u30")] {
                let want = bytes.len();
                match c.guard(|| x.prefix(wi)) {
                    Ok(Ok(l)) if l == want && want <= max => {}
                    Ok(Err(tedium::error::WidthError::TooWide { limit, actual })) if want > max && limit == max && actual == want => {}
                    o => c.violation(format!("{}:length_prefix:{}", k.name, n), format!("{:?}: payload {} bytes, length_prefix {:?}", v, want, o)),
                }
                match c.guard(|| x.encode_prefixed(wi)) {
                    Ok(e) if want <= max => {
                        let mut w = vec![];
                        for s in (0..pl).rev() {
                            w.push((want >> (8 * s)) as u8)
                        }
                        if e.len() != pl + want || e[..pl] != w[..] {
                            c.violation(format!("{}:prefix-bytes:{}", k.name, n), format!("{:?}: payload {} bytes, encoded {}", v, want, hex(&e)))
                        }
                    }
                    Err(_) if want > max => c.count("oversized payload refused", 1),
                    o => c.violation(format!("{}:prefix-encode:{}", k.name, n), format!("{:?}: payload {} bytes, outcome {:?}", v, want, o.map(|b| hex(&b)))),
                }
            }
        }
    }
}

/// the compile-time length of fixed-length types equals the length of every encoding
fn fixed_lengths(c: &mut Ctx) {
    use mon::ty::{name, Ty};
    use mon::universe::*;
    use tedium::*;
    macro_rules! f {
        ($($t:ty),* $(,)?) => {$(
            let k = format!("LEN {}", name::<$t>());
            c.cases(&k, 40, |c, r| {
                let v = model::gen(&<$t as Ty>::schema(), r, 8);
                let x = <$t as Ty>::from_value(&v);
                let n = c.guard(|| (Encode::to_bytes(&x).len(), <$t as FixedLength>::LEN, <$t as Estimable>::KNOWN));
                c.seen(format!("{k}{v:?}").as_bytes());
                c.count("fixed lengths compared", 1);
                match n {
                    Ok((a, b, kn)) if a == b && kn == Some(b) => {}
                    o => c.violation(k.clone(), format!("{v:?}: (encoded length, LEN, KNOWN) = {o:?}")),
                }
            });
        )*};
    }
    f!((), bool, u8, i8, u16, i16, u32, i32, u64, i64, f64, u30, i31, RangedInt<u8, 5, 250>, RangedInt<u16, 1000, 1000>, RangedInt<i16, -5, -3>, FUnit, FPoint);
    f!(FixedBytes<0>, FixedBytes<1>, FixedBytes<20>, FixedString<4>, ESparse8, EUnordered16, EWide32, ESingle, ELow16, ELow32, EZero32, RFixL, RFixInner);
}

/// a payload of `n` bytes which occupies no memory: counting targets see every byte of it
#[derive(Clone)]
struct Huge(usize);
static MEG: [u8; 1 << 20] = [0x5a; 1 << 20];
impl tedium::Encode for Huge {
    fn write_to<U: tedium::Target>(&self, buf: &mut U) -> usize {
        let (mut left, mut n) = (self.0, 0);
        while left > 0 {
            let k = left.min(MEG.len());
            n += buf.push_all(&MEG[..k]);
            left -= k;
        }
        n
    }
}
impl tedium::Estimable for Huge {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        self.0
    }
}

/// prefixes around the largest payload each prefix type can announce
fn boundaries(c: &mut Ctx) {
    use tedium::conv::target::ByteCounter;
    use tedium::{conv::EncodeLength, error::WidthError, u30, Bytes, Dynamic, Encode, Estimable, Sequence, Target};
    macro_rules! at {
        ($c:ident, $s:ty, $max:expr, $pl:expr, $n:expr, $mk:expr, $store:expr) => {{
            let (n, what): (usize, String) = ($n, format!("Dynamic<{},{}>", stringify!($s), stringify!($mk)));
            let d = Dynamic::<$s, _>::new($mk);
            $c.seen(format!("{what}{n}").as_bytes());
            $c.count("payloads around a prefix's limit", 1);
            let lp = $c.guard(|| d.length_prefix().map(|x| -> usize { x.into() }));
            let want = if n <= $max { Ok(n) } else { Err(WidthError::TooWide { limit: $max, actual: n }) };
            $c.check(matches!(&lp, Ok(x) if *x == want), || format!("{what}/length_prefix"), || format!("{n} bytes: {lp:?}"));
            let written = $c.guard(|| d.write_to(&mut ByteCounter::create()));
            $c.check(if n <= $max { matches!(written, Ok(k) if k == $pl + n) } else { written.is_err() }, || format!("{what}/count"), || format!("{n} bytes: {written:?}"));
            if n <= $max {
                let got = $c.guard(|| (EncodeLength::enc_len(&d), Estimable::estimate(&d)));
                $c.check(matches!(got, Ok((a, b)) if a == $pl + n && b == $pl + n), || format!("{what}/enc_len"), || format!("{n} bytes: (enc_len, estimate) = {got:?}"));
            }
            if $store {
                let bytes = $c.guard(|| (Encode::to_bytes(&d), Encode::encode::<Vec<u8>>(&d)));
                match bytes {
                    Ok((b, f)) => {
                        let head: Vec<u8> = (0..$pl).rev().map(|s| (n >> (8 * s)) as u8).collect();
                        $c.check(n <= $max && b == f && b.len() == $pl + n && b[..$pl] == head[..], || format!("{what}/bytes"), || format!("{n} bytes: {} bytes starting {}", b.len(), hex(&b[..b.len().min(8)])));
                    }
                    Err(p) => $c.check(n > $max, || format!("{what}/refused"), || format!("{n} bytes: {}", p.0)),
                }
            }
        }};
    }
    let small = [0usize, 1, 2, 127, 128, 253, 254, 255, 256, 257, 258, 300, 511, 512, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 131071, 131072, (1 << 20) - 1, (1 << 20) + 3, (1 << 24) - 3, (1 << 24) + 5];
    c.cases("boundaries", small.len() as u64, |c, r| {
        let n = small[c.case_index() as usize % small.len()];
        let b = r.u8();
        at!(c, u8, 255usize, 1, n, vec![b; n], true);
        at!(c, u16, 65535usize, 2, n, vec![b; n], true);
        at!(c, u30, 0x3fff_ffffusize, 4, n, vec![b; n], true);
        at!(c, u8, 255usize, 1, n, Bytes::from(vec![b; n]), true);
        at!(c, u16, 65535usize, 2, n, "x".repeat(n), true);
        at!(c, u30, 0x3fff_ffffusize, 4, n, Sequence::from_vec(vec![b; n]), true);
        at!(c, u16, 65535usize, 2, n, Huge(n), true);
        if (2..=65537).contains(&n) {
            at!(c, u8, 255usize, 1, n, Dynamic::<u16, Vec<u8>>::new(vec![b; n - 2]), true);
        }
    });
    let huge = [0x3fff_fffdusize, 0x3fff_fffe, 0x3fff_ffff, 0x4000_0000, 0x4000_0001, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x1_0000_00ff, 0x1_0001_0000];
    c.cases("boundaries/huge", huge.len() as u64, |c, _| {
        let n = huge[c.case_index() as usize % huge.len()];
        at!(c, u8, 255usize, 1, n, Huge(n), false);
        at!(c, u16, 65535usize, 2, n, Huge(n), false);
        at!(c, u30, 0x3fff_ffffusize, 4, n, Huge(n), false);
    });
}

/// one payload, large or around a boundary, under each prefix which can announce it
fn payloads(c: &mut Ctx, r: &mut Rng, n: usize) {
    use tedium::parse::ParserExt;
    use tedium::{u30, Bytes, Dynamic, Encode, Sequence};
    let pay = if r.chance(1, 2) { vec![*r.pick(&[0u8, b'z', 1, 0x7f]); n] } else { r.bytes(n).into_iter().map(|b| b & 0x7f).collect() };
    c.seen(&pay);
    c.count("bytes of payload", n as u64);
    macro_rules! one {
        ($s:ty, $pl:expr, $max:expr, $t:ty, $mk:expr) => {
            if n <= $max {
                let what = format!("Dynamic<{},{}> of {n} bytes", stringify!($s), stringify!($t));
                let sig = |k: &str| format!("payload/{}/{}/{k}", stringify!($s), stringify!($t));
                let mut want: Vec<u8> = (0..$pl).rev().map(|s| (n >> (8 * s)) as u8).collect();
                want.extend(&pay);
                let x = Dynamic::<$s, $t>::new($mk);
                c.count("payloads encoded", 1);
                let out = c.guard(|| (Encode::to_bytes(&x), Encode::encode::<Vec<u8>>(&x), tedium::conv::EncodeLength::enc_len(&x)));
                match &out {
                    Ok((b, f, l)) => {
                        c.check(*b == want && *f == want, || sig("encode"), || format!("{what}: {} bytes {}", b.len(), hex(&b[..b.len().min(12)])));
                        c.check(*l == want.len(), || sig("enc_len"), || format!("{what}: {l}"));
                    }
                    Err(p) => c.violation(sig("encode-panic"), format!("{what}: {}", p.0)),
                }
                // alone, followed by other bytes, and cut or stretched by one
                let tail = r.below(3);
                let mut more = want.clone();
                more.extend(std::iter::repeat(7).take(tail));
                let short = &want[..want.len() - 1];
                for kind in KINDS {
                    c.count("payloads decoded", 1);
                    let out = c.guard(|| {
                        let mut p = AnyP::new(kind, &more);
                        let got = <Dynamic<$s, $t> as tedium::Decode>::parse(&mut p);
                        let at = p.offset();
                        let mut q = AnyP::new(kind, &more);
                        let skipped = q.skip_dynamic::<$s>();
                        let rest = (p.remainder(), q.remainder(), q.offset());
                        (got.map(|g| g == x).map_err(|e| e.to_string()), at, skipped.is_ok(), rest)
                    });
                    c.check(
                        matches!(&out, Ok((Ok(true), at, true, (a, b, o))) if (kind == Kind::Slice || *at == want.len()) && *o == *at && *a == tail && *b == tail),
                        || sig("decode"),
                        || format!("{what}, {tail} bytes after it, {kind:?}: (value, offset, skipped, left) = {out:?}"),
                    );
                    let out = c.guard(|| {
                        let mut p = AnyP::new(kind, short);
                        let got = <Dynamic<$s, $t> as tedium::Decode>::parse(&mut p).is_ok();
                        let mut q = AnyP::new(kind, short);
                        (got, q.skip_dynamic::<$s>().is_ok())
                    });
                    c.check(n == 0 || matches!(out, Ok((false, false))), || sig("short"), || format!("{what}, its last byte missing, {kind:?}: {out:?}"));
                }
                let out = c.guard(|| <Dynamic<$s, $t> as tedium::Decode>::try_decode::<_, tedium::ByteParser>(want.clone()).map(|g| g == x).map_err(|e| e.to_string()));
                c.check(matches!(out, Ok(Ok(true))), || sig("try_decode"), || format!("{what}: {out:?}"));
            }
        };
    }
    one!(u8, 1, 255, Bytes, Bytes::from(pay.clone()));
    one!(u16, 2, 65535, Bytes, Bytes::from(pay.clone()));
    one!(u30, 4, 0x3fff_ffff, Bytes, Bytes::from(pay.clone()));
    one!(u16, 2, 65535, String, String::from_utf8(pay.clone()).unwrap());
    one!(u30, 4, 0x3fff_ffff, String, String::from_utf8(pay.clone()).unwrap());
    one!(u30, 4, 0x3fff_ffff, Vec<u8>, pay.clone());
    if n < 1 << 21 {
        one!(u30, 4, 0x3fff_ffff, Sequence<u8>, Sequence::from_vec(pay.clone()));
    }
}

/// sequences of very many elements, against their elements' bytes written one after another
fn masses(c: &mut Ctx, r: &mut Rng) {
    use tedium::parse::ParserExt;
    use tedium::{conv::EncodeLength, u30, Dynamic, Encode, Estimable, FixSeq, LimSeq, Sequence, N};
    let around = *r.pick(&[256usize, 1024, 4096, 8192, 16384, 32768, 65536, 65536, 65536, 70000, 100_000, 131_072]);
    let n = (around + r.below(5)).saturating_sub(2);
    let salt = r.u64();
    c.seen(format!("{n}/{salt}").as_bytes());
    let mix = |i: usize| (salt ^ i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 17;
    macro_rules! one {
        ($what:expr, $seq:ty, $t:ty, $n:expr, $mk:expr, $raw:expr) => {{
            let n: usize = $n;
            let what = format!("{} of {n}", $what);
            let sig = |k: &str| format!("masses/{}/{k}", $what);
            let mk: fn(u64) -> $t = $mk;
            let raw: fn(u64, &mut Vec<u8>) = $raw;
            let v: Vec<$t> = (0..n).map(|i| mk(mix(i))).collect();
            let mut body = vec![];
            for i in 0..n {
                raw(mix(i), &mut body);
            }
            let x: $seq = v.into_iter().collect();
            c.count("elements in large sequences", n as u64);
            let out = c.guard(|| (Encode::to_bytes(&x), Encode::encode::<Vec<u8>>(&x), EncodeLength::enc_len(&x), Estimable::estimate(&x)));
            match &out {
                Ok((b, f, l, e)) => {
                    c.check(*b == body && *f == body, || sig("encode"), || format!("{what}: {} bytes for {}", b.len(), body.len()));
                    c.check(*l == body.len() && *e == body.len(), || sig("lengths"), || format!("{what}: enc_len {l}, estimate {e} for {} bytes", body.len()));
                }
                Err(p) => c.violation(sig("encode-panic"), format!("{what}: {}", p.0)),
            }
            let mut want = (body.len() as u32).to_be_bytes().to_vec();
            want.extend(&body);
            want.extend([1, 2]);
            for kind in KINDS {
                let out = c.guard(|| {
                    let mut p = AnyP::new(kind, &want);
                    let got = <Dynamic<u30, $seq> as tedium::Decode>::parse(&mut p).map(|g| g.into_inner() == x).map_err(|e| e.to_string());
                    let mut q = AnyP::new(kind, &want);
                    let skipped = q.skip_dynamic::<u30>().is_ok();
                    (got, skipped, p.remainder(), q.remainder())
                });
                c.check(matches!(out, Ok((Ok(true), true, 2, 2))), || sig("decode"), || format!("{what}, {kind:?}: (value, skipped, left, left) = {out:?}"));
            }
            let out = c.guard(|| {
                let d = Dynamic::<u30, $seq>::new(x.clone());
                (Encode::to_bytes(&d), d.length_prefix().map(|x| -> usize { x.into() }).ok(), EncodeLength::enc_len(&d), Estimable::estimate(&d))
            });
            let whole = &want[..want.len() - 2];
            c.check(matches!(&out, Ok((b, l, e, s)) if b == whole && *l == Some(body.len()) && *e == whole.len() && *s == whole.len()), || sig("prefixed"), || format!("{what}: {:?}", out.as_ref().map(|o| (o.0.len(), o.1, o.2, o.3)).map_err(|p| p.0.clone())));
        }};
    }
    fn u16b(x: u64, o: &mut Vec<u8>) {
        o.extend((x as u16).to_be_bytes())
    }
    // 65 to 192: two bytes; below 64: one
    fn nb(x: u64, o: &mut Vec<u8>) {
        let v = x & 0xff;
        if v < 128 {
            o.push(v as u8)
        } else {
            o.extend([0x80 | (v & 0x7f) as u8, (v >> 7) as u8])
        }
    }
    fn optb(x: u64, o: &mut Vec<u8>) {
        if x & 1 == 1 {
            o.extend([0xff, (x >> 1) as u8])
        } else {
            o.push(0)
        }
    }
    match r.below(6) {
        0 => one!("Sequence<u16>", Sequence<u16>, u16, n, |x| x as u16, u16b),
        1 => one!("Sequence<N>", Sequence<N>, N, n, |x| N::from(num_bigint::BigUint::from(x & 0xff)), nb),
        2 => one!("Sequence<Option<u8>>", Sequence<Option<u8>>, Option<u8>, n, |x| if x & 1 == 1 { Some((x >> 1) as u8) } else { None }, optb),
        3 => one!("LimSeq<u16, 140000>", LimSeq<u16, 140000>, u16, n, |x| x as u16, u16b),
        4 => one!("LimSeq<Option<u8>, 140000>", LimSeq<Option<u8>, 140000>, Option<u8>, n, |x| if x & 1 == 1 { Some((x >> 1) as u8) } else { None }, optb),
        _ => {
            one!("FixSeq<u16, 65537>", FixSeq<u16, 65537>, u16, 65537, |x| x as u16, u16b);
            one!("FixSeq<Option<u8>, 66000>", FixSeq<Option<u8>, 66000>, Option<u8>, 66000, |x| if x & 1 == 1 { Some((x >> 1) as u8) } else { None }, optb);
            one!("FixSeq<u16, 4097>", FixSeq<u16, 4097>, u16, 4097, |x| x as u16, u16b);
        }
    }
}

/// size predictions of borrowed and element-wise types, which only `Estimable` describes
fn predictions(c: &mut Ctx, r: &mut Rng) {
    use std::borrow::Cow;
    use tedium::conv::len::{FixedLength, ScalarLength};
    use tedium::{Encode, Estimable};
    let n = if r.chance(1, 20) { r.long(300) } else { r.range(0, 20) };
    let text: String = (0..n).map(|_| *r.pick(&['a', '0', 'é', '€', '🦀', '\0'])).collect();
    c.seen(text.as_bytes());
    let t = text.as_str();
    let want = text.len();
    c.count("predictions compared", 24);
    macro_rules! p {
        ($name:expr, $x:expr, $want:expr) => {{
            let (e, w) = (Estimable::estimate($x), $want);
            c.check(e == w, || format!("estimate/{}", $name), || format!("{e} for {w} bytes"));
        }};
    }
    p!("&str", &t, want);
    p!("String", &text, want);
    p!("Cow borrowed", &Cow::Borrowed(t), want);
    p!("Cow owned", &Cow::<str>::Owned(text.clone()), want);
    p!("Option<&str>", &Some(t), 1 + want);
    p!("Option<String>", &None::<String>, 1);
    c.check(ScalarLength::n_elems(t) == want && <String as ScalarLength>::PER_ELEM == 1 && <str as ScalarLength>::FIXED.is_none(), || "scalar/str".into(), String::new);
    macro_rules! elems {
        ($($ty:ty),*) => {$({
            let v: Vec<$ty> = (0..n.min(1200)).map(|_| <$ty>::parse_any(r)).collect();
            let one = <$ty as FixedLength>::LEN;
            let want: usize = v.iter().map(|x| Encode::to_bytes(x).len()).sum();
            p!(concat!("Vec ", stringify!($ty)), &v, want);
            p!(concat!("&[] ", stringify!($ty)), &&v[..], want);
            c.check(ScalarLength::n_elems(&v) == v.len() && ScalarLength::n_elems(&v[..]) == v.len() && <Vec<$ty> as ScalarLength>::PER_ELEM == one && <Vec<$ty> as ScalarLength>::FIXED.is_none() && <Vec<$ty> as Estimable>::KNOWN.is_none(), || format!("scalar/{}", stringify!($ty)), String::new);
            let a: [$ty; 7] = [<$ty>::parse_any(r); 7];
            p!(concat!("[;7] ", stringify!($ty)), &a, 7 * one);
            c.check(<[$ty; 7] as FixedLength>::LEN == 7 * one && <[[$ty; 3]; 2] as FixedLength>::LEN == 6 * one && <[$ty; 0] as FixedLength>::LEN == 0 && <[$ty; 7] as Estimable>::KNOWN == Some(7 * one), || format!("array/{}", stringify!($ty)), String::new);
            c.check(ScalarLength::n_elems(&a[0]) == 1 && <$ty as ScalarLength>::FIXED == Some(one), || format!("scalar-one/{}", stringify!($ty)), String::new);
        })*};
    }
    elems!(u8, i8, u16, i16, u32, i32, u64, i64, f64, bool);
}
trait ParseAny {
    fn parse_any(r: &mut Rng) -> Self;
}
macro_rules! any {
    ($($t:ty => $e:expr),*) => {$(impl ParseAny for $t { fn parse_any(r: &mut Rng) -> Self { let f: fn(&mut Rng) -> $t = $e; f(r) } })*};
}
any!(u8 => |r| r.u8(), i8 => |r| r.u8() as i8, u16 => |r| r.u64() as u16, i16 => |r| r.u64() as i16, u32 => |r| r.u64() as u32, i32 => |r| r.u64() as i32,
     u64 => |r| r.u64(), i64 => |r| r.u64() as i64, f64 => |r| f64::from_bits(r.u64()), bool => |r| r.chance(1, 2));

// ------------------------------------------------------------------------ C21
/// Does the error state the facts of the rejection? `total` is the number of
/// bytes that were left in the whole buffer at the point of failure.
fn states(e: &tedium::ParseError, rej: &Rej, total: usize) -> bool {
    use tedium::error::{BoundsError, LengthError};
    use tedium::parse::error::{ExternalError, ParseError, TokenError};
    if let (ParseError::External(x), Rej::IntRange { min, max, raw, val }) = (e, rej) {
        // for MIN > 0 the stored offset or the number itself may be quoted
        let off = (*min).max(0);
        return match x {
            ExternalError::IntRangeViolation(b) => match *b {
                BoundsError::Overflow { max: m, val: v } => val > max && ((m as i128, v as i128) == (*max, *val) || (m as i128, v as i128) == (max - off, *raw)),
                BoundsError::Underflow { min: m, val: v } => val < min && ((m as i128, v as i128) == (*min, *val) || (m as i128, v as i128) == (min - off, *raw)),
                BoundsError::IllegalNegative { min: m, val: v } => *raw < 0 && m > 0 && m as i128 == *min && v as i128 == *raw,
                BoundsError::Failed(_) => *val > i64::MAX as i128 || *val < i64::MIN as i128,
                BoundsError::InvalidBounds { .. } => min > max,
            },
            _ => false,
        };
    }
    if let (ParseError::External(ExternalError::FloatRangeViolation(b)), Rej::FloatRange { min, max, val }) = (e, rej) {
        let (lo, hi, x) = (f64::from_bits(*min), f64::from_bits(*max), f64::from_bits(*val));
        return match *b {
            BoundsError::Overflow { max: m, val: v } => m == hi && v.to_bits() == *val && !(x <= hi),
            BoundsError::Underflow { min: m, val: v } => m == lo && v.to_bits() == *val && !(x >= lo),
            BoundsError::InvalidBounds { .. } => !(lo <= hi),
            _ => false,
        };
    }
    if let (ParseError::External(ExternalError::LengthViolation(l)), Rej::Count { limit, actual, exact }) = (e, rej) {
        return match *l {
            LengthError::TooLong { limit: m, actual: a } => !*exact && m == *limit && a == *actual,
            LengthError::WrongLength { exact: m, actual: a } => *exact && m == *limit && a == *actual,
        };
    }
    if let (ParseError::Token(TokenError::NonNullPaddingByte { padding }), Rej::Padding(p)) = (e, rej) {
        return padding == p;
    }
    use mon::hist::Fact;
    match (mon::hist::fact(e), rej) {
        (Fact::Consume { want, have }, Rej::Short { want: w, have: h }) => want == *w && have == *h,
        (Fact::Open { want, have, whole }, Rej::Window { want: w, have: h }) => want == *w && (have == *h || (whole && have == total && want > have)),
        (Fact::Residue(n), Rej::Residue { residual }) => n == *residual,
        (Fact::Bool(b), Rej::Bool(x)) => b == *x,
        (Fact::Tag { width, nums }, Rej::Tag { width: w, tag: t, valid: v }) => {
            let mut v = v.clone();
            v.push(*t);
            v.sort();
            width == *w && nums == v
        }
        (Fact::NoTags, Rej::Tag { valid, .. }) => valid.is_empty(),
        (Fact::Unterminated(b), Rej::Unterminated(x)) => b == *x,
        _ => false,
    }
}

fn walk_error(e: &dyn std::error::Error) -> (String, usize) {
    let mut s = format!("{e} {e:?} {e:#?}");
    let mut depth = 0;
    let mut cur = e.source();
    while let Some(x) = cur {
        s.push_str(&format!("{x} {x:?}"));
        depth += 1;
        if depth > 20 {
            break;
        }
        cur = x.source();
    }
    (s, depth)
}

fn c21(c: &mut Ctx, k: &Case, r: &mut Rng) {
    let size = if r.chance(1, 50) { 280 } else { r.range(0, 20) };
    let (b, how) = model::gen_input(&k.schema, r, size);
    let mut cur = Cursor::new(&b);
    cur.cfg.check_padding = cfg!(feature = "check_padding");
    let want = model::decode(&k.schema, &mut cur);
    let total = b.len() - cur.pos;
    if want == Err(Rej::NoProgress) {
        return;
    }
    for kind in [Kind::Byte, Kind::Slice, Kind::Memo] {
        let o = c.guard(|| {
            let mut p = AnyP::new(kind, &b);
            match (k.parse)(&mut p) {
                Ok(y) => (None, y.debug()),
                Err(e) => {
                    let (s, depth) = walk_error(&e);
                    (Some((e, depth)), s)
                }
            }
        });
        match (o, &want) {
            (Err(p), _) => c.violation(format!("{}:panic:{}", k.name, kind.name()), format!("{} ({how}): {}", hex(&b), p.0)),
            (Ok((Some((e, depth)), text)), Err(rej)) => {
                c.count(&format!("decode errors compared: {}", rej_kind(rej)), 1);
                c.seen(format!("{}{rej:?}", k.name).as_bytes());
                c.sample(|| format!("{} {} => {:?} for {:?}", k.name, hex(&b), e, rej));
                if !states(&e, rej, total) {
                    c.violation(format!("{}:{}:{}", k.name, rej_kind(rej), kind.name()), format!("{} ({how}): error {:?}, the fact is {:?}", hex(&b), e, rej));
                }
                if depth == 0 {
                    c.violation(format!("{}:cause-lost", rej_kind(rej)), format!("{} {}: {:?} has no source", k.name, hex(&b), e));
                }
                if text.trim().is_empty() {
                    c.violation(format!("{}:blank", rej_kind(rej)), format!("{} {}: {:?}", k.name, hex(&b), e));
                }
            }
            _ => {}
        }
        // the same failure through the decoding entry point keeps its cause
        if kind == Kind::Byte {
            let bb = b.clone();
            let o = c.guard(|| match (k.try_decode)(bb) {
                Ok(_) => None,
                Err(e) => {
                    let (text, depth) = walk_error(&e);
                    let inner = match &e {
                        tedium::conv::error::DecodeError::Parse(p) => Some(format!("{p:?}")),
                        _ => None,
                    };
                    Some((inner, depth, text))
                }
            });
            match (o, &want) {
                (Ok(Some((Some(inner), depth, _))), Err(rej)) => {
                    let direct = {
                        let mut p = AnyP::new(kind, &b);
                        (k.parse)(&mut p).err().map(|e| format!("{e:?}"))
                    };
                    if direct.as_deref() != Some(inner.as_str()) || depth < 2 {
                        c.violation(format!("{}:wrapping", rej_kind(rej)), format!("{} {}: wrapped {inner}, parse gives {direct:?}, {depth} causes", k.name, hex(&b)));
                    }
                    c.count("wrapped errors compared", 1);
                }
                (Err(p), _) => c.violation(format!("{}:panic:try_decode", k.name), format!("{}: {}", hex(&b), p.0)),
                _ => {}
            }
        }
    }
}

// ------------------------------------------------------------------------ C10
fn has_window(s: &Schema) -> bool {
    match s {
        Schema::Dyn(..) | Schema::VPad(..) => true,
        Schema::Opt(t) | Schema::Nullable(t) | Schema::Padded(t, _) | Schema::Seq(t) | Schema::LimSeq(t, _) | Schema::FixSeq(t, _) => has_window(t),
        Schema::Struct(fs) => fs.iter().any(has_window),
        Schema::Enum(_, vs) => vs.iter().any(|(_, f)| has_window(f)),
        _ => false,
    }
}

fn c10(c: &mut Ctx, k: &Case, r: &mut Rng) {
    if !has_window(&k.schema) {
        return;
    }
    let size = r.range(1, 20);
    let (body, how) = model::gen_input(&k.schema, r, size);
    let greedy = model::greedy(&k.schema);
    // sentinels on both sides; the element is decoded inside a window of its own
    let lead = r.range(0, 5);
    let ntrail = r.range(1, 8);
    let mk = |fill: u8| {
        let mut b = vec![fill; lead];
        b.extend(&body);
        b.extend(vec![fill; ntrail]);
        b
    };
    let inner_extra = if greedy { 0 } else { r.below(3).min(ntrail) };
    let (want, wrem, wins, _) = {
        let b = mk(0xA5);
        let inner = &b[lead..lead + body.len() + inner_extra];
        reference(k, inner)
    };
    if want == Err(Rej::NoProgress) {
        return;
    }
    c.seen(format!("{}{}{}", k.name, hex(&body), inner_extra).as_bytes());
    c.sample(|| format!("{} {} ({how}) windows {:?} => {:?}", k.name, hex(&body), wins, want));
    c.count("payload windows expected", wins.len() as u64);
    let mut results = vec![];
    for fill in [0x00u8, 0xff, 0x80, 0xA5] {
        // bytes of `inner_extra` belong to the decoded region: keep them constant
        let mut b = mk(fill);
        for x in &mut b[lead + body.len()..lead + body.len() + inner_extra] {
            *x = 0xA5;
        }
        macro_rules! run {
            ($mkp:expr, $pn:expr) => {{
                let out = c.guard(|| {
                    let mut p = AnyP::logged($mkp, &b, 200_000);
                    for _ in 0..lead {
                        p.consume_byte().unwrap();
                    }
                    p.set_fit(body.len() + inner_extra).unwrap();
                    let y = (k.parse)(&mut p);
                    let rem = p.remainder();
                    let mut resumed = vec![];
                    if y.is_ok() {
                        // reading resumes right after the element, then right after the window
                        while p.remainder() > 0 {
                            resumed.push(p.consume_byte().unwrap());
                        }
                        if p.enforce_target().is_ok() {
                            while let Ok(x) = p.consume_byte() {
                                resumed.push(x);
                            }
                        }
                    }
                    (y.map(|y| y.value()).map_err(|e| errs::class(&e)), rem, resumed, std::mem::take(&mut p.mon().log))
                });
                match out {
                    Err(p) => c.violation(format!("{}:panic:{}", k.name, $pn), format!("{} ({how}) lead {lead}: {}", hex(&b), p.0)),
                    Ok((y, rem, resumed, log)) => {
                        let f = check_log(&log, &b);
                        c.count("parser events observed", log.len() as u64);
                        c.count("windows opened", f.windows.len() as u64);
                        if let Some(br) = &f.breach {
                            c.violation(format!("{}:breach:{}", k.name, $pn), format!("{} ({how}): {br}; log {:?}", hex(&b), log));
                        }
                        // no read straddles the boundary of a payload the format delimits
                        let mut pos = 0usize;
                        for e in &log {
                            let n = match e {
                                Ev::Byte(Some(_)) => 1,
                                Ev::Consume(n, Some(_)) => *n,
                                _ => 0,
                            };
                            for (s, t) in &wins {
                                let (s, t) = (s + lead, t + lead);
                                if pos >= s && pos < t && pos + n > t {
                                    c.violation(format!("{}:straddle:{}", k.name, $pn), format!("{} ({how}): read of {n} at {pos} crosses payload end {t}", hex(&b)));
                                }
                            }
                            pos += n;
                        }
                        match (&y, &want) {
                            (Ok(a), Ok(w)) => {
                                if a != w || rem != wrem {
                                    c.violation(format!("{}:payload:{}", k.name, $pn), format!("{} ({how}): got {:?} rem {rem}, want {:?} rem {wrem}", hex(&b), a, w));
                                }
                                let after = &b[lead + body.len() + inner_extra - wrem..];
                                if resumed != after {
                                    c.violation(format!("{}:resume:{}", k.name, $pn), format!("{} ({how}): resumed with {} instead of {}", hex(&b), hex(&resumed), hex(after)));
                                }
                                if f.unclosed != 0 {
                                    c.violation(format!("{}:unclosed:{}", k.name, $pn), format!("{} ({how}): {} windows left open; log {:?}", hex(&b), f.unclosed, log));
                                }
                            }
                            (Err(_), Err(_)) => {}
                            _ => c.violation(format!("{}:acceptance:{}", k.name, $pn), format!("{} ({how}): got {:?}, want {:?}", hex(&b), y, want)),
                        }
                        results.push((y, rem));
                    }
                }
            }};
        }
        run!(Kind::Byte, "byte");
        run!(Kind::Slice, "slice");
    }
    // the outcome does not depend on what lies outside the window
    if results.iter().any(|x| x.0 != results[0].0) {
        c.violation(format!("{}:outside-influence", k.name), format!("{} ({how}): {:?}", hex(&body), results));
    }
}

fn main() {
    let mut c = Ctx::from_args("C01");
    let prop = c.prop.clone();
    let per_type = match prop.as_str() {
        "C01" => c.n(900 * 6, 25_000),
        "C02" => c.n(1500 * 6, 40_000),
        "C03" => c.n(1200 * 6, 40_000),
        "C04" => c.n(900 * 6, 20_000),
        "C06" => c.n(900 * 6, 30_000),
        "C07" => c.n(500 * 6, 12_000),
        "C10" => c.n(400 * 6, 10_000),
        "C21" => c.n(600 * 6, 15_000),
        p => panic!("codec does not decide {p}"),
    };
    let big = if prop == "C04" { c.n(30, 600) } else { 0 };
    let types = universe();
    if prop == "C07" {
        fixed_lengths(&mut c);
        boundaries(&mut c);
        let n = c.n(3_000, 200_000);
        c.cases("predictions", n, predictions);
    }
    if matches!(prop.as_str(), "C01" | "C02" | "C07" | "C10") {
        let n = c.n(60, 1500);
        c.cases("masses", n, masses);
    }
    if matches!(prop.as_str(), "C01" | "C02" | "C10") {
        let n = c.n(40, 1500);
        c.cases("payloads", n, |c, r| {
            let n = if r.chance(1, 3) { r.long(300) } else { r.large() };
            payloads(c, r, n)
        });
        let edges = [(1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 255, (1 << 24) + 259];
        c.cases("payloads/16MiB", 2, |c, r| {
            let n = *r.pick(&edges);
            payloads(c, r, n)
        });
    }
    if prop == "C04" {
        let n = c.n(60_000, 3_000_000);
        c.cases("reads", n, c04_reads);
        let n = c.n(6_000, 200_000);
        c.cases("bounds", n, c04_bounds);
    }
    for k in &types {
        run_type(&mut c, k, &k.name, &prop, per_type, big);
    }
    c.count("types", types.len() as u64);
    c.finish()
}

fn run_type(c: &mut Ctx, k: &Case, stream: &str, prop: &str, n: u64, big: u64) {
    match prop {
        "C01" => c.cases(stream, n, |c, r| c01(c, k, r)),
        "C02" => c.cases(stream, n, |c, r| c02(c, k, r)),
        "C03" => c.cases(stream, n, |c, r| c03(c, k, r)),
        "C04" => {
            c.cases(stream, n, |c, r| c04(c, k, r, false));
            c.cases(&format!("{stream}/big"), big, |c, r| c04(c, k, r, true));
        }
        "C06" => c.cases(stream, n, |c, r| c06(c, k, r)),
        "C07" => c.cases(stream, n, |c, r| c07(c, k, r)),
        "C10" => c.cases(stream, n, |c, r| c10(c, k, r)),
        "C21" => c.cases(stream, n, |c, r| c21(c, k, r)),
        _ => unreachable!(),
    }
}
