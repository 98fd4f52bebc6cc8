//! C24: record codecs are the concatenation of their fields.
use mon::alloc;
use mon::errs;
use mon::model::{self, Value};
use mon::monparser::Ev;
use mon::ops::{AnyP, AnyT, Kind, KINDS, NTARGETS, TARGET_NAMES};
use mon::prng::Rng;
#[path = "../records/mod.rs"]
mod records;
use records::{records, RecOps};
use mon::rep::{hex, Ctx};
use tedium::{Parser, Target};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn statics(c: &mut Ctx, k: &RecOps) {
    let want: Option<usize> = k.fields.iter().map(|f| f.known).sum();
    let got = k.whole.known;
    c.check(got == want, || format!("{}:known", k.name), || format!("KNOWN is {:?}, fields have {:?}", got, k.fields.iter().map(|f| f.known).collect::<Vec<_>>()));
    if let Some((len, parts)) = &k.lens {
        c.check(*len == parts.iter().sum::<usize>(), || format!("{}:LEN", k.name), || format!("LEN is {len}, fields have {parts:?}"));
        c.check(got == Some(*len), || format!("{}:LEN-known", k.name), || format!("LEN is {len}, KNOWN {got:?}"));
        c.count("records with a fixed length", 1);
    }
    c.count(if want.is_some() { "records of known length" } else { "records of unknown length" }, 1);
    c.count("fields declared", k.fields.len() as u64);
    c.seen(format!("static {}", k.name).as_bytes());
}

fn encode(c: &mut Ctx, k: &RecOps, r: &mut Rng) {
    let size = r.range(0, 20);
    let v = model::gen(&k.schema, r, size);
    let mut want = vec![];
    model::encode(&k.schema, &v, &mut want).expect("generated values are encodable");
    let lead = r.below(4);
    let lead = r.spicy_bytes(lead);
    let out = c.guard(|| {
        let (x, parts) = (k.parts)(&v);
        let mut rows = vec![];
        for i in 0..NTARGETS {
            let mut whole = AnyT::make(i);
            let mut pieces = AnyT::make(i);
            if i != 4 {
                whole.push_all(&lead);
                pieces.push_all(&lead);
            }
            let n = x.write(&mut whole);
            let mut m = 0;
            let mut each = vec![];
            for p in &parts {
                let w = p.write(&mut pieces);
                m += w;
                each.push(w);
            }
            rows.push((i, n, m, whole.content(), pieces.content(), each));
        }
        let est: Vec<usize> = parts.iter().map(|p| p.estimate()).collect();
        let lens: Vec<usize> = parts.iter().map(|p| p.enc_len()).collect();
        let unk = if k.whole.known.is_none() { Some(x.unknown()) } else { None };
        let vals: Vec<Value> = parts.iter().map(|p| p.value()).collect();
        (rows, x.estimate(), x.enc_len(), unk, est, lens, vals, x.to_bytes())
    });
    let (rows, est, enc_len, unk, pest, plens, vals, bytes) = match out {
        Ok(x) => x,
        Err(p) => return c.violation(format!("{}:encode-panic", k.name), format!("{:?}: {}", v, p.0)),
    };
    c.seen(format!("{}{}", k.name, hex(&want)).as_bytes());
    c.sample(|| format!("{} {:?} = {}", k.name, v, hex(&want)));
    c.count("fields encoded", vals.len() as u64);
    if Value::Struct(vals.clone()) != v {
        c.violation(format!("{}:fields", k.name), format!("built from {:?}, holds {:?}", v, vals));
    }
    if bytes != want {
        c.violation(format!("{}:bytes", k.name), format!("{:?}: {} expected {}", v, hex(&bytes), hex(&want)));
    }
    for (i, n, m, whole, pieces, each) in rows {
        if whole != pieces || n != m {
            c.violation(
                format!("{}:concat:{}", k.name, TARGET_NAMES[i]),
                format!("{:?}: record wrote {n} bytes {:?}, its fields {each:?} bytes {:?}", v, whole.map(|b| hex(&b)), pieces.map(|b| hex(&b))),
            );
        }
    }
    let sum: usize = pest.iter().sum();
    if est != sum || unk.map_or(false, |u| u != sum) {
        c.violation(format!("{}:estimate", k.name), format!("{:?}: estimate {est}, unknown {unk:?}, fields {pest:?}", v));
    }
    if enc_len != plens.iter().sum::<usize>() {
        c.violation(format!("{}:enc_len", k.name), format!("{:?}: enc_len {enc_len}, fields {plens:?}", v));
    }
}

type Outcome = (Result<Vec<Value>, String>, usize, Option<Vec<Ev>>);

fn whole(k: &RecOps, mut p: AnyP, log: bool) -> Outcome {
    let y = match (k.whole.parse)(&mut p) {
        Ok(x) => match x.value() {
            Value::Struct(v) => Ok(v),
            v => panic!("harness: {v:?}"),
        },
        Err(e) => Err(format!("{:?}/{}", errs::class(&e), e)),
    };
    let ev = log.then(|| std::mem::take(&mut p.mon().log));
    (y, p.remainder(), ev)
}

fn by_field(k: &RecOps, mut p: AnyP, log: bool, done: &mut usize) -> Outcome {
    let mut vs = vec![];
    let mut err = None;
    for f in &k.fields {
        match (f.parse)(&mut p) {
            Ok(x) => {
                vs.push(x.value());
                *done += 1;
            }
            Err(e) => {
                err = Some(format!("{:?}/{}", errs::class(&e), e));
                break;
            }
        }
    }
    let ev = log.then(|| std::mem::take(&mut p.mon().log));
    (err.map_or(Ok(vs), Err), p.remainder(), ev)
}

fn decode(c: &mut Ctx, k: &RecOps, r: &mut Rng) {
    let size = r.range(0, 16);
    let (b, how) = model::gen_input(&k.schema, r, size);
    if model::decode_all(&k.schema, &b) == Err(model::Rej::NoProgress) {
        return;
    }
    c.seen(format!("{}d{}", k.name, hex(&b)).as_bytes());
    c.count(&format!("inputs:{how}"), 1);
    let kind = KINDS[r.below(3)];
    let log = r.chance(2, 3);
    let lead = r.below(3).min(b.len());
    let mut done = 0;
    let out = c.guard(|| {
        let mk = |k: Kind| {
            let mut p = if log { AnyP::logged(k, &b, 1_000_000) } else { AnyP::new(k, &b) };
            // start off a record boundary as well
            if lead == 2 {
                p.consume_byte().ok();
            }
            p
        };
        (whole(k, mk(kind), log), by_field(k, mk(kind), log, &mut done))
    });
    c.count("fields decoded one by one", done as u64);
    match out {
        Err(p) => c.violation(format!("{}:decode-panic", k.name), format!("{} ({how}): {}", hex(&b), p.0)),
        Ok((w, f)) => {
            c.count(if w.0.is_ok() { "records accepted" } else { "records rejected" }, 1);
            if let Some(l) = &w.2 {
                c.count("parser events compared", l.len() as u64);
            }
            if format!("{:?}", w.0) != format!("{:?}", f.0) || w.1 != f.1 {
                c.violation(
                    format!("{}:decode:{}", k.name, if w.0.is_ok() && f.0.is_ok() { "value" } else { "outcome" }),
                    format!("{} ({how}, {}): record gave {:?} leaving {}, its fields in order {:?} leaving {}", hex(&b), kind.name(), w.0, w.1, f.0, f.1),
                );
            } else if w.2 != f.2 {
                c.violation(format!("{}:decode-reads", k.name), format!("{} ({how}): record read {:?}, its fields read {:?}", hex(&b), w.2, f.2));
            }
            if let (Err(_), true) = (&w.0, lead < 2) {
                if model::decode_all(&k.schema, &b).is_ok() {
                    c.violation(format!("{}:rejected", k.name), format!("{} ({how}): {:?}", hex(&b), w.0));
                }
            }
        }
    }
}

fn main() {
    let mut c = Ctx::from_args("C24");
    let (ne, nd) = (c.n(500, 12_000), c.n(900, 25_000));
    for k in &records() {
        c.cases(&format!("{}/static", k.name), 1, |c, _| statics(c, k));
        c.cases(&format!("{}/encode", k.name), ne, |c, r| encode(c, k, r));
        c.cases(&format!("{}/decode", k.name), nd, |c, r| decode(c, k, r));
        c.count("record types", 1);
    }
    c.finish()
}
