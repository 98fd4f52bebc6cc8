//! C13: hex strings accept exactly even-length hex and convert losslessly.
use mon::prng::{hinted, roomy, roomy_text, Rng};
use mon::rep::{hex, Ctx};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::rc::Rc;
use std::sync::Arc;
use tedium::conv::target::Target;
use tedium::error::HexConvError;
use tedium::hexstring::HexString;
use tedium::parse::buffer::VecBuffer;

#[global_allocator]
static A: mon::alloc::Counting = mon::alloc::Counting;

fn is_hex(s: &str) -> bool {
    s.len() % 2 == 0 && s.bytes().all(|c| matches!(c, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F'))
}
fn nib(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => c - b'A' + 10,
    }
}
fn unhex(s: &str) -> Vec<u8> {
    s.as_bytes().chunks(2).map(|c| nib(c[0]) << 4 | nib(c[1])).collect()
}

const SPICE: [&str; 44] = [
    "g", "G", "/", ":", "@", "`", "+", "-", " ", "\t", "\n", "\0", "_", "x", "X", "0x", ".", "é", "ß", "٣", "Ａ", "ａ", "０", "𝟎", "🙂", "\u{7f}", "\u{80}", "\u{130}", "\u{ff10}", "\u{200b}", "\u{1d7d8}", "+1", "-0", "1_", "e", "E", "i",
    "Ⅽ", "ﬀ", "²", "\r", "\r\n", "\n\n", "  ",
];

fn any_char(r: &mut Rng) -> char {
    loop {
        let x = match r.below(5) {
            0 => r.below(128) as u32,
            1 => 128 + r.below(0x780) as u32,
            2 => 0x800 + r.below(0xF800) as u32,
            3 => 0x10000 + r.below(0x100000) as u32,
            _ => 0xff00 + r.below(0xf0) as u32,
        };
        if let Some(c) = char::from_u32(x) {
            return c;
        }
    }
}

fn gen_text(r: &mut Rng) -> String {
    let n = r.long(24);
    let digits = b"0123456789abcdefABCDEF";
    let mut s: String = (0..2 * n).map(|_| *r.pick(digits) as char).collect();
    match r.below(8) {
        0 | 1 => s,
        2 => {
            s.pop();
            s
        }
        3 | 4 => {
            // replace k characters by something else
            let mut v: Vec<String> = s.chars().map(|c| c.to_string()).collect();
            for _ in 0..r.range(1, 3) {
                if v.is_empty() {
                    v.push(String::new());
                }
                let i = r.below(v.len());
                v[i] = if r.chance(2, 3) { r.pick(&SPICE).to_string() } else { any_char(r).to_string() };
            }
            v.concat()
        }
        5 => {
            let mut v: Vec<String> = s.chars().map(|c| c.to_string()).collect();
            let i = r.below(v.len() + 1);
            v.insert(i, r.pick(&SPICE).to_string());
            if r.chance(1, 2) {
                let i = r.below(v.len() + 1);
                v.insert(i, r.pick(&SPICE).to_string());
            }
            v.concat()
        }
        6 => (0..r.below(8)).map(|_| any_char(r)).collect(),
        _ if r.chance(1, 2) => format!("{}{}", s, r.pick(&["\n", "\r\n", "  ", "\n\n", "\0", "\0\0", "h", "==", "..", ", ", "\u{feff}", "\u{a0}", "\t\n"])),
        _ => format!("{}{}", r.pick(&["0x", "0X", " ", "#", "h'", "", "\u{feff}", "\u{feff}0", "\\x", "\r\n", "  ", "16#"]), s),
    }
}

fn judge(c: &mut Ctx, how: &str, t: &str, got: Result<Result<HexString, HexConvError>, mon::rep::Panicked>) {
    c.count("parses observed", 1);
    match got {
        Err(p) => c.violation(format!("{how}:panic"), format!("{t:?}: {}", p.0)),
        Ok(Ok(h)) => {
            let want = if is_hex(t) { Some(unhex(t)) } else { None };
            if want.as_deref() != Some(h.as_bytes()) {
                c.violation(format!("{how}:{}", if want.is_some() { "value" } else { "accepted" }), format!("{t:?} -> {}, should be {:?}", hex(h.as_bytes()), want.map(|w| hex(&w))));
            }
        }
        Ok(Err(e)) => {
            if is_hex(t) {
                return c.violation(format!("{how}:refused"), format!("{t:?}: {e:?}"));
            }
            let (odd, carried) = match &e {
                HexConvError::OddParity(s) => (true, s),
                HexConvError::NonHex(s) => (false, s),
            };
            if carried != t {
                c.violation(format!("{how}:error-text"), format!("{t:?}: error carries {carried:?}"));
            }
            // for non-ASCII text "length" may be read in bytes or characters
            let parity_ok = if t.is_ascii() {
                odd == (t.len() % 2 != 0) || (!odd && !t.bytes().all(|b| b.is_ascii_hexdigit()))
            } else {
                true
            };
            if !parity_ok {
                c.violation(format!("{how}:error-kind"), format!("{t:?}: {e:?}"));
            }
            let d = c.guard(|| (e.to_string(), format!("{e:?}"), e.clone() == e));
            c.check(matches!(&d, Ok((_, dbg, true)) if dbg.contains(t)), || format!("{how}:error-display"), || format!("{t:?}: {d:?}"));
        }
    }
}

fn parse_all(c: &mut Ctx, t: &str) {
    let s = t.to_string();
    judge(c, "try_from(&str)", t, c_guard(c, || HexString::try_from(t)));
    judge(c, "try_from(String)", t, c_guard(c, || HexString::try_from(roomy_text(&s, 1))));
    judge(c, "try_from(&String)", t, c_guard(c, || HexString::try_from(&s)));
    judge(c, "try_from(Box)", t, c_guard(c, || HexString::try_from(s.clone().into_boxed_str())));
    judge(c, "try_from(Rc)", t, c_guard(c, || HexString::try_from(Rc::<str>::from(t))));
    judge(c, "try_from(Arc)", t, c_guard(c, || HexString::try_from(Arc::<str>::from(t))));
    judge(c, "try_from(Cow)", t, c_guard(c, || HexString::try_from(Cow::Borrowed(t))));
    judge(c, "from_str", t, c_guard(c, || t.parse::<HexString>()));
    judge(c, "from_hex", t, c_guard(c, || HexString::from_hex(t)));
    judge(c, "from_hex(String)", t, c_guard(c, || HexString::from_hex(roomy_text(&s, 2))));
    // the macro panics exactly on what is refused
    let m = c.guard(|| tedium::hex!(t));
    match m {
        Ok(h) => c.check(is_hex(t) && h.as_bytes() == &unhex(t)[..], || "hex!:value".into(), || format!("{t:?} -> {}", hex(h.as_bytes()))),
        Err(_) => c.check(!is_hex(t), || "hex!:panic".into(), || format!("{t:?}")),
    }
    c.count(if is_hex(t) { "texts accepted" } else { "texts refused" }, 1);
}

fn c_guard<T>(c: &Ctx, f: impl FnOnce() -> T) -> Result<T, mon::rep::Panicked> {
    mon::rep::guard(c.label(), f)
}

fn texts(c: &mut Ctx, r: &mut Rng) {
    let t = gen_text(r);
    c.seen(t.as_bytes());
    c.sample(|| format!("{t:?} hex={}", is_hex(&t)));
    parse_all(c, &t);
    // equality with bytes and text
    let b = match r.below(4) {
        0 if is_hex(&t) => unhex(&t),
        1 | 2 if is_hex(&t) && !t.is_empty() => {
            let mut b = unhex(&t);
            let i = if r.chance(1, 2) { b.len() - 1 - r.below(b.len().min(3)) } else { r.below(b.len()) };
            b[i] ^= 1 << r.below(8);
            b
        }
        2 => r.bytes(t.len() / 2),
        _ => {
            let n = r.size(6);
            r.spicy_bytes(n)
        }
    };
    equality(c, &b, &t);
}

fn equality(c: &mut Ctx, b: &[u8], t: &str) {
    let want = is_hex(t) && unhex(t) == b;
    let h = HexString::from(b);
    let s = t.to_string();
    let out = c.guard(|| {
        [
            ("eq_hex(&str)", h.eq_hex(t)),
            ("eq_hex(String)", h.eq_hex(&s)),
            ("hex==&str", h == t),
            ("hex==String", h == s),
            ("hex==Cow", h == Cow::Borrowed(t)),
            ("&str==hex", t == h),
            ("String==hex", s == h),
            ("Cow==hex", Cow::<str>::Owned(s.clone()) == h),
        ]
    });
    c.count("equalities observed", 8);
    match out {
        Ok(v) => {
            for (how, got) in v {
                c.check(got == want, || format!("{how}:{want}"), || format!("{} vs {t:?}: {got}", hex(b)));
            }
        }
        Err(p) => c.violation("eq:panic", format!("{} vs {t:?}: {}", hex(b), p.0)),
    }
}

fn h64<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn bytes(c: &mut Ctx, r: &mut Rng) {
    let n = if r.chance(1, 400) { r.large() } else { r.long(40) };
    let b = if r.chance(1, 2) { r.bytes(n) } else { r.spicy_bytes(n) };
    let m = r.long(10);
    let d = r.bytes(m);
    c.seen(&b);
    c.sample(|| hex(&b));
    let arr: [u8; 5] = [r.u8(), r.u8(), r.u8(), r.u8(), r.u8()];
    let w = hex(&b);
    let mut q = Rng::new(r.u64());
    let res = c.guard(|| {
        let h = HexString::from(roomy(&b, 0));
        let mut bad: Vec<String> = vec![];
        let mut ck = |ok: bool, what: &str| {
            if !ok {
                bad.push(what.to_string())
            }
        };
        // constructors
        ck(HexString::from(&b[..]) == h, "from-slice");
        ck(HexString::from(b.clone().into_boxed_slice()) == h, "from-box");
        ck(HexString::from(Rc::<[u8]>::from(&b[..])) == h, "from-rc");
        ck(HexString::from(Arc::<[u8]>::from(&b[..])) == h, "from-arc");
        ck(HexString::from(Cow::Borrowed(&b[..])) == h, "from-cow");
        ck(HexString::from_vec(roomy(&b, 3)) == h, "from_vec");
        ck(HexString::from_bytes(roomy(&b, 4)) == h, "from_bytes");
        ck(HexString::from_bytes(&b[..]) == h, "from_bytes-slice");
        ck(HexString::clone_from_bytes(&b) == h, "clone_from_bytes");
        ck(hinted(&mut q, b.iter().copied()).collect::<HexString>() == h, "collect");
        ck(hinted(&mut q, b.iter()).collect::<HexString>() == h, "collect-ref");
        ck(HexString::from(arr).as_bytes() == arr, "from-array");
        ck(HexString::from(&arr).as_bytes() == arr, "from-array-ref");
        ck(HexString::from(Box::new(arr)).as_bytes() == arr, "from-array-box");
        ck(HexString::from(Rc::new(arr)).as_bytes() == arr, "from-array-rc");
        ck(HexString::from(Arc::new(arr)).as_bytes() == arr, "from-array-arc");
        ck(HexString::from(Cow::Borrowed(&arr)).as_bytes() == arr, "from-array-cow");
        ck(HexString::new().as_bytes().is_empty() && HexString::default().is_empty(), "new");
        // accessors
        ck(h.as_bytes() == b, "as_bytes");
        ck(h.as_vec() == &b, "as_vec");
        ck(AsRef::<[u8]>::as_ref(&h) == b, "as_ref");
        ck(h.clone().into_inner() == b, "into_inner");
        ck(Vec::<u8>::from(h.clone()) == b, "into-vec");
        ck(h.len() == b.len(), "len");
        ck(h.is_empty() == b.is_empty(), "is_empty");
        ck(h.iter().copied().eq(b.iter().copied()), "iter");
        ck((&h).into_iter().copied().eq(b.iter().copied()), "ref-into_iter");
        ck(h.clone().into_iter().eq(b.iter().copied()), "into_iter");
        let mut rev: Vec<u8> = h.iter().rev().copied().collect();
        rev.reverse();
        ck(rev == b, "iter-rev");
        let vb = VecBuffer::from(h.clone());
        ck(vb.len() == b.len() && vb.get_slice(0, b.len()) == b, "vecbuffer");
        // printing
        ck(h.to_hex() == w, "to_hex");
        ck(h.to_string() == w, "display");
        ck(format!("{h}") == w, "format");
        ck(format!("{h:?}").contains(&w), "debug");
        let wide = format!("{h:>100}");
        ck(wide.trim_start() == w && wide.len() == 100.max(w.len()), "display-padded");
        ck(HexString::from_hex(h.to_hex()).as_ref() == Ok(&h), "print-parse");
        ck(HexString::from_hex(h.to_hex().to_ascii_uppercase()).as_ref() == Ok(&h), "print-upper-parse");
        ck(h == w && w == h, "eq-printed");
        // comparison
        let o = HexString::from(d.clone());
        ck((h == o) == (b == d), "eq");
        ck(h.cmp(&o) == b.cmp(&d), "cmp");
        ck(h.partial_cmp(&o) == b.partial_cmp(&d), "partial_cmp");
        ck(h64(&h) == h64(&h.clone()), "hash");
        // concatenation
        let mut cat = b.clone();
        cat.extend(&d);
        let mut e = h.clone();
        e.extend(hinted(&mut q, d.iter().copied()));
        ck(e.as_bytes() == cat, "extend");
        let mut e = h.clone();
        e.extend(hinted(&mut q, d.iter()));
        ck(e.as_bytes() == cat, "extend-ref");
        let mut e = h.clone();
        e.write_all(&d).unwrap();
        e.flush().unwrap();
        ck(e.as_bytes() == cat, "write_all");
        let mut e = h.clone();
        let k = e.push_all(&d);
        ck(e.as_bytes() == cat && k == d.len(), "push_all");
        ck(e.to_hex() == format!("{}{}", h.to_hex(), o.to_hex()), "concat-hex");
        // mutation shows
        if !b.is_empty() {
            let mut e = h.clone();
            e.as_mut_bytes()[0] ^= 0xff;
            e.as_mut_vec().push(9);
            let last = e.len() - 1;
            AsMut::<[u8]>::as_mut(&mut e)[last] = 8;
            let mut x = b.clone();
            x[0] ^= 0xff;
            x.push(8);
            ck(e.to_hex() == hex(&x), "mutate");
        }
        bad
    });
    c.count("byte strings", 1);
    match res {
        Ok(bad) => {
            for x in bad {
                c.violation(format!("bytes:{x}"), format!("{} + {}", hex(&b), hex(&d)));
            }
        }
        Err(p) => c.violation("bytes:panic", format!("{}: {}", hex(&b), p.0)),
    }
}

/// byte arrays of many widths, by value and behind every kind of pointer
fn arrays(c: &mut Ctx, r: &mut Rng) {
    use std::{borrow::Cow, rc::Rc, sync::Arc};
    macro_rules! size {
        ($($n:literal)*) => {{
            let pick = *r.pick(&[$($n),*]);
            $(if pick == $n {
                let bytes = r.spicy_bytes($n);
                c.seen(&bytes);
                let mut arr = [0u8; $n];
                arr.copy_from_slice(&bytes);
                let out = c.guard(|| {
                    [
                        ("value", HexString::from(arr)),
                        ("ref", HexString::from(&arr)),
                        ("box", HexString::from(Box::new(arr))),
                        ("rc", HexString::from(Rc::new(arr))),
                        ("arc", HexString::from(Arc::new(arr))),
                        ("cow", HexString::from(Cow::Borrowed(&arr))),
                        ("cow-owned", HexString::from(Cow::<[u8; $n]>::Owned(arr))),
                        ("slice", HexString::from(&arr[..])),
                        ("boxed slice", HexString::from(Box::<[u8]>::from(&arr[..]))),
                        ("rc slice", HexString::from(Rc::<[u8]>::from(&arr[..]))),
                        ("arc slice", HexString::from(Arc::<[u8]>::from(&arr[..]))),
                        ("cow slice", HexString::from(Cow::Borrowed(&arr[..]))),
                        ("vec", HexString::from(arr.to_vec())),
                        ("from_bytes", HexString::from_bytes(arr.to_vec())),
                        ("clone_from_bytes", HexString::clone_from_bytes(&arr)),
                        ("collect", arr.iter().collect()),
                        ("collect by value", arr.into_iter().collect()),
                        ("hex", HexString::from_hex(hex(&arr)).unwrap()),
                    ]
                });
                c.count("hex strings made of arrays", 18);
                match out {
                    Ok(l) => for (how, h) in l {
                        c.check(h.as_bytes() == arr && h.len() == arr.len(), || format!("arrays/{how}"), || format!("an array of {} bytes gave {} of them", arr.len(), h.len()));
                    },
                    Err(p) => c.violation("arrays/panic", format!("{} bytes: {}", arr.len(), p.0)),
                }
            })*
        }};
    }
    size!(0 1 2 3 4 7 8 9 15 16 17 20 31 32 33 63 64 65 100 127 128 129 255 256 257 512 513 1000 1024 1025 2048 4095 4096 4097 5000 8193 10000 32768 65535 65536 65537 100000)
}

fn main() {
    let mut c = Ctx::from_args("C13");
    assert_eq!(c.prop, "C13");
    // all one- and two-character ASCII texts, and every character in a pair
    c.cases("pairs", 128, |c, r| {
        let a = c.label().rsplit('#').next().unwrap().parse::<u32>().unwrap();
        let ch = char::from_u32(a).unwrap();
        parse_all(c, &ch.to_string());
        for b in 0..128u32 {
            let t: String = [ch, char::from_u32(b).unwrap()].iter().collect();
            c.seen(t.as_bytes());
            judge(c, "from_hex", &t, c_guard(c, || HexString::from_hex(&t)));
            judge(c, "try_from(&str)", &t, c_guard(c, || HexString::try_from(&t[..])));
            if b % 16 == a % 16 {
                equality(c, &[r.u8()], &t);
            }
            let v = if is_hex(&t) { unhex(&t)[0] } else { r.u8() };
            equality(c, &[v], &t);
        }
    });
    let n = c.n(80_000, 2_000_000);
    c.cases("texts", n, texts);
    let n = c.n(30_000, 500_000);
    c.cases("bytes", n, bytes);
    let n = c.n(600, 20_000);
    c.cases("arrays", n, arrays);
    c.finish()
}
