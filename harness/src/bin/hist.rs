//! Parser-history monitors: C05 C06 C15 C17 C18 C21.
use mon::alloc;
use mon::hist::{self, apply, by_reading, gen_buf, gen_op, primitive, show, show_buf, skipping, Bias, Deep, Fact, Large, Long, Model, Op, Out};
use mon::ops::{AnyP, Kind, KINDS};
use mon::prng::Rng;
use mon::rep::Ctx;
use tedium::parse::cleanup::LeftoverState;
use tedium::Parser;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

thread_local! {
    /// operations observed on real parsers: [kind][failed, succeeded]
    static OPS: std::cell::RefCell<[[u64; 2]; 18]> = const { std::cell::RefCell::new([[0; 2]; 18]) };
}

fn state(p: &AnyP<'_>) -> (usize, usize, usize) {
    (p.remainder(), p.view_len(), p.offset())
}

/// remainder, view length and offset of a parser against the model
fn state_ok(k: Kind, p: &AnyP<'_>, m: &Model<'_>) -> bool {
    let (rem, view, off) = state(p);
    // the offset either counts consumed bytes or never moves
    let off_ok = match k {
        Kind::Slice => off == 0 || off == m.pos,
        _ => off == m.pos && view == m.end(),
    };
    rem == m.rem() && view.checked_sub(off) == Some(rem) && off_ok
}

/// how far two outcomes agree
fn disagreement(before: &Model<'_>, got: &Out, want: &Out) -> Option<&'static str> {
    match (got, want) {
        (Out::Fail(_), Out::Fail(_)) => {
            if got == want {
                None
            } else if let (Out::Fail(a), Out::Fail(b)) = (got, want) {
                let whole = match (a, b) {
                    (Fact::Open { want: w1, have, whole: true }, Fact::Open { want: w2, .. }) => w1 == w2 && w1 > have && *have == before.buf.len() - before.pos,
                    _ => false,
                };
                if whole {
                    None
                } else if a.kind() == b.kind() {
                    Some("error-quantities")
                } else {
                    Some("error-kind")
                }
            } else {
                unreachable!()
            }
        }
        (Out::Fail(_), _) => Some("refused"),
        (_, Out::Fail(_)) => Some("accepted"),
        _ if got != want => Some("result"),
        _ => None,
    }
}

fn opname(op: &Op) -> &'static str {
    op.name()
}

fn check_leftover(c: &mut Ctx, k: Kind, res: Result<LeftoverState, String>, m: &Model<'_>, ctx: &dyn Fn() -> String) {
    let (wins, base) = m.leftover();
    let total: Vec<u8> = wins.concat().into_iter().chain(base.iter().copied()).collect();
    let st = match res {
        Err(e) => return c.violation(format!("cleanup:{}:error", k.name()), format!("{}: {e}", ctx())),
        Ok(s) => s,
    };
    c.count("cleanups observed", 1);
    c.count(&format!("cleanups with {} open windows", wins.len().min(5)), 1);
    let (len, empty) = (st.len(), st.is_empty());
    let (bytes, segs): (Vec<u8>, Option<Vec<Vec<u8>>>) = match &st {
        LeftoverState::Empty => (vec![], None),
        LeftoverState::Windowless(v) => (v.clone(), None),
        LeftoverState::Windowed(sv) => {
            let segs: Vec<Vec<u8>> = sv.spans().map(|s| s.to_vec()).collect();
            let (flat, lens) = sv.clone().into_parts();
            if lens.iter().sum::<usize>() != flat.len() || segs.concat() != flat {
                c.violation(format!("cleanup:{}:segments", k.name()), format!("{}: {:?}", ctx(), st));
            }
            (flat, Some(segs))
        }
    };
    if bytes != total {
        c.violation(format!("cleanup:{}:bytes", k.name()), format!("{}: left {} expected {}", ctx(), show_buf(&bytes), show_buf(&total)));
    }
    if len != total.len() || empty != total.is_empty() {
        c.violation(format!("cleanup:{}:len", k.name()), format!("{}: len {len} is_empty {empty}, {} bytes unread", ctx(), total.len()));
    }
    match segs {
        None => {
            if !wins.is_empty() {
                c.violation(format!("cleanup:{}:windows-lost", k.name()), format!("{}: {:?} with {} windows open", ctx(), st, wins.len()));
            }
        }
        Some(got) => {
            let mut want = wins.clone();
            if !base.is_empty() {
                want.push(base.clone());
            }
            let mut alt = wins.clone();
            alt.push(base.clone());
            if wins.is_empty() || (got != want && got != alt) {
                c.violation(format!("cleanup:{}:partition", k.name()), format!("{}: pieces {:?}, windows {:?} then {:?}", ctx(), got, wins, base));
            }
        }
    }
}

/// one history: generated against the model, then applied to every parser
fn history(c: &mut Ctx, prop: &str, r: &mut Rng, bias: Bias) {
    let buf = gen_buf(r);
    let steps = match r.below(5) {
        0 => r.range(0, 4),
        1..=3 => r.range(3, 30),
        _ => r.range(20, 120),
    };
    let mut over = false;
    drive(c, prop, r, buf, &mut |m, r, step| {
        if step >= steps || std::mem::take(&mut over) {
            return None;
        }
        let op = gen_op(m, r, bias);
        let mut after = m.clone();
        after.apply(&op);
        over = after.pos == after.buf.len() && after.ends.is_empty() && r.chance(1, 6);
        Some(op)
    })
}

fn deep(c: &mut Ctx, prop: &str, r: &mut Rng) {
    let (buf, mut d) = Deep::new(r);
    drive(c, prop, r, buf, &mut |m, r, step| d.op(m, r, step))
}

fn long(c: &mut Ctx, prop: &str, r: &mut Rng) {
    let (buf, mut d) = Long::new(r);
    drive(c, prop, r, buf, &mut |m, r, step| d.op(m, r, step))
}

/// buffers and windows beyond what 16 (sometimes 20, sometimes 24) bits can count
fn large(c: &mut Ctx, prop: &str, r: &mut Rng) {
    let (buf, mut d) = Large::new(r);
    c.count("histories over buffers of 64 KiB or more", 1);
    drive(c, prop, r, buf, &mut |m, r, step| d.op(m, r, step))
}

type NextOp<'a> = dyn FnMut(&Model<'_>, &mut Rng, usize) -> Option<Op> + 'a;

fn drive(c: &mut Ctx, prop: &str, r: &mut Rng, buf: Vec<u8>, next: &mut NextOp<'_>) {
    let mut m = Model::new(&buf);
    let mut ops = vec![];
    let mut want = vec![];
    let mut states = vec![];
    while let Some(op) = next(&m, r, ops.len()) {
        want.push(m.apply(&op));
        ops.push(op);
        let mut s = m.clone();
        s.spans.clear();
        s.empty.clear();
        states.push(s);
        c.count("model operations", 1);
    }
    let depth = states.iter().map(|s| s.ends.len()).max().unwrap_or(0);
    let class = if depth < 9 { depth.to_string() } else { ["9-32", "33-256", "257 and more"][(depth > 32) as usize + (depth > 256) as usize].into() };
    c.count(&format!("histories reaching window depth {class}"), 1);
    if ops.len() > 1024 {
        c.count("histories of more than 1024 operations", 1);
    }
    c.count("failing operations in histories", want.iter().filter(|o| !o.ok()).count() as u64);
    c.seen(format!("{}{}", show_buf(&buf), show(&ops)).as_bytes());
    c.sample(|| format!("buf {} ops {}", show_buf(&buf), show(&ops)));
    let mut traces: Vec<Vec<(Out, usize)>> = vec![];
    let mut kinds = vec![];
    for k in KINDS {
        if k == Kind::Memo && buf.len() > 200_000 {
            // it prints all it has read whenever something fails
            continue;
        }
        let mut trace: Vec<(Out, usize)> = vec![];
        let mut aborted = false;
        let mut p = AnyP::new(k, &buf);
        let m0 = Model::new(&buf);
        if !state_ok(k, &p, &m0) && prop == "C05" {
            c.violation(format!("{}:fresh", k.name()), format!("buf of {} bytes: (remainder, view, offset) = {:?}", buf.len(), state(&p)));
            continue;
        }
        for (i, op) in ops.iter().enumerate() {
            let before = if i == 0 { &m0 } else { &states[i - 1] };
            let after = &states[i];
            let here = || format!("{} parser, buf {}, after [{}], {:?}", k.name(), show_buf(&buf), show(&ops[..i]), op);
            let got = match c.guard(|| (apply(&mut p, op), p.remainder())) {
                Ok(x) => x,
                Err(pn) => {
                    if matches!(prop, "C05" | "C06" | "C18") && (prop != "C18" || skipping(op)) {
                        c.violation(format!("{}:{}:panic", k.name(), opname(op)), format!("{}: {}", here(), pn.0));
                    }
                    aborted = true;
                    break;
                }
            };
            OPS.with(|t| t.borrow_mut()[op.index()][got.0.ok() as usize] += 1);
            trace.push(got.clone());
            // a compound operation fails where its prefix ends
            let mut at = before.clone();
            if !want[i].ok() {
                at.pos = after.pos;
            }
            let dis = disagreement(&at, &got.0, &want[i]);
            let state_matches = c.guard(|| state_ok(k, &p, after)).unwrap_or(false);
            let failed_compound = !want[i].ok() && !primitive(op);
            match prop {
                "C05" => {
                    if let Some(d) = dis {
                        if !(d == "error-quantities") {
                            c.violation(format!("{}:{}:{}", k.name(), opname(op), d), format!("{}: got {:?}, want {:?}", here(), got.0, want[i]));
                        }
                    } else if !state_matches && !failed_compound {
                        let unchanged = if want[i].ok() { "state" } else { "failed-op-changed-state" };
                        c.violation(
                            format!("{}:{}:{}", k.name(), opname(op), unchanged),
                            format!("{}: (remainder, view, offset) = {:?}, want remainder {} position {} window end {} (before: {})", here(), state(&p), after.rem(), after.pos, after.end(), before.rem()),
                        );
                    }
                }
                "C18" if skipping(op) => {
                    if let Some(d) = dis {
                        if d != "error-quantities" {
                            c.violation(format!("{}:{}:{}", k.name(), opname(op), d), format!("{}: got {:?}, want {:?}", here(), got.0, want[i]));
                        }
                    } else if want[i].ok() && !state_matches {
                        c.violation(format!("{}:{}:position", k.name(), opname(op)), format!("{}: left with {:?}, want remainder {}", here(), state(&p), after.rem()));
                    }
                }
                "C21" => {
                    if let (Out::Fail(f), Out::Fail(w)) = (&got.0, &want[i]) {
                        c.count(&format!("error facts compared: {}", w.kind()), 1);
                        // a buffer parser speaks of a window only where there is one
                        if k != Kind::Slice && primitive(op) && before.ends.is_empty() && matches!(f, Fact::Open { whole: false, .. }) {
                            c.violation(format!("{}:{}:no-such-window", k.name(), opname(op)), format!("{}: error states {:?}, and no window is open", here(), f));
                        }
                        if dis.is_some() {
                            c.violation(format!("{}:{}:{}:{}", k.name(), opname(op), w.kind(), dis.unwrap()), format!("{}: error states {:?}, the fact is {:?}", here(), f, w));
                        }
                    }
                }
                _ => {}
            }
            if dis.map_or(false, |d| d != "error-quantities") || !state_matches {
                // the parser and the model no longer describe the same state
                aborted = true;
                break;
            }
        }
        if prop == "C15" && !aborted {
            let res = c.guard(|| p.cleanup().map_err(|e| format!("{e:?}")));
            let ctx = || format!("{} parser, buf {}, after [{}]", k.name(), show_buf(&buf), show(&ops));
            match res {
                Ok(res) => check_leftover(c, k, res, &m, &ctx),
                Err(pn) => c.violation(format!("cleanup:{}:panic", k.name()), format!("{}: {}", ctx(), pn.0)),
            }
        }
        traces.push(trace);
        kinds.push(k);
    }
    if prop == "C06" {
        for j in 1..traces.len() {
            let n = traces[0].len().min(traces[j].len());
            let differs = (0..n).find(|&i| {
                let (a, b) = (&traces[0][i], &traces[j][i]);
                let same = match (&a.0, &b.0) {
                    (Out::Fail(x), Out::Fail(y)) => x.kind() == y.kind() && a.1 == b.1,
                    _ => a == b,
                };
                !same
            });
            c.count("history traces compared", 1);
            if let Some(i) = differs {
                c.violation(
                    format!("history:{}-vs-{}:{}", kinds[0].name(), kinds[j].name(), opname(&ops[i])),
                    format!("buf {}, after [{}], {:?}: {:?} vs {:?}", show_buf(&buf), show(&ops[..i]), ops[i], traces[0][i], traces[j][i]),
                );
            }
        }
    }
}

/// C18: the skipping operation on one parser, reading on its twin, at the same state
fn skip_vs_read(c: &mut Ctx, r: &mut Rng) {
    let buf = gen_buf(r);
    let k = *r.pick(&KINDS);
    let mut m = Model::new(&buf);
    let pre: Vec<Op> = (0..r.below(8))
        .map(|_| {
            let op = gen_op(&m, r, Bias::Windows);
            m.apply(&op);
            op
        })
        .collect();
    let op = loop {
        let op = gen_op(&m, r, Bias::Skips);
        if skipping(&op) {
            break op;
        }
    };
    let post: Vec<Op> = {
        let mut m2 = m.clone();
        m2.apply(&op);
        (0..4)
            .map(|_| {
                let o = gen_op(&m2, r, Bias::Even);
                m2.apply(&o);
                o
            })
            .collect()
    };
    let run = |c: &mut Ctx, reading: bool| {
        c.guard(|| {
            let mut p = AnyP::new(k, &buf);
            for o in &pre {
                apply(&mut p, o);
            }
            let a = if reading { by_reading(&mut p, &op).unwrap() } else { apply(&mut p, &op) };
            let mut rest = vec![];
            if a.ok() {
                rest.push(format!("{}", p.remainder()));
                for o in &post {
                    rest.push(format!("{:?}", apply(&mut p, o)));
                }
            }
            (a, rest)
        })
        .map_err(|p| p.0)
    };
    let a = run(c, false);
    let b = run(c, true);
    c.seen(format!("{}{}{:?}{}", k.name(), show_buf(&buf), op, show(&pre)).as_bytes());
    c.count(&format!("skip/read pairs: {}", opname(&op)), 1);
    let same = match (&a, &b) {
        (Ok((Out::Fail(x), _)), Ok((Out::Fail(y), _))) => x.kind() == y.kind(),
        (Ok(x), Ok(y)) => x == y,
        _ => false,
    };
    if !same {
        c.violation(format!("pair:{}:{}", k.name(), opname(&op)), format!("buf {}, after [{}], {:?} then [{}]: skipping {:?}, reading {:?}", show_buf(&buf), show(&pre), op, show(&post), a, b));
    }
}

/// C15: the leftover record as a data structure
fn leftover_ops(c: &mut Ctx, r: &mut Rng) {
    let mut st = if r.chance(1, 2) { LeftoverState::new() } else { LeftoverState::default() };
    let mut closed: Vec<Vec<u8>> = vec![];
    let mut cur: Vec<u8> = vec![];
    let n = r.range(0, 12);
    let mut trace = vec![];
    for _ in 0..n {
        if r.chance(2, 3) {
            let k = r.size(9);
            let mut b = r.bytes(k);
            trace.push(format!("append {k}"));
            cur.extend(&b);
            if c.guard(|| st.append(&mut b)).is_err() {
                return c.violation("leftover:append:panic", trace.join("; "));
            }
            if !b.is_empty() {
                return c.violation("leftover:append:source-not-emptied", trace.join("; "));
            }
        } else {
            trace.push("escape".into());
            if c.guard(|| st.escape_context()).is_err() {
                return c.violation("leftover:escape:panic", trace.join("; "));
            }
            closed.push(std::mem::take(&mut cur));
        }
        let total: Vec<u8> = closed.concat().into_iter().chain(cur.iter().copied()).collect();
        let (bytes, segs) = match &st {
            LeftoverState::Empty => (vec![], None),
            LeftoverState::Windowless(v) => (v.clone(), None),
            LeftoverState::Windowed(s) => (s.clone().into_inner(), Some(s.spans().map(|x| x.to_vec()).collect::<Vec<_>>())),
        };
        c.count("leftover states compared", 1);
        let seg_ok = match segs {
            None => closed.is_empty(),
            Some(mut s) => {
                let mut w = closed.clone();
                w.push(cur.clone());
                if s.len() < w.len() {
                    s.push(vec![]);
                }
                s == w
            }
        };
        if bytes != total || st.len() != total.len() || st.is_empty() != total.is_empty() || !seg_ok {
            return c.violation("leftover:content", format!("{}: {:?}, want {:?} + {:?}", trace.join("; "), st, closed, cur));
        }
    }
    c.seen(trace.join(";").as_bytes());
}

// ------------------------------------------------------------------------ C17
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
}

struct Capture {
    file: std::fs::File,
    saved: i32,
}

impl Capture {
    /// standard error into an unlinked scratch file
    fn start() -> Capture {
        use std::os::fd::AsRawFd;
        let mut path = std::env::temp_dir();
        path.push(format!("mon-stderr-{}", std::process::id()));
        let file = std::fs::OpenOptions::new().read(true).append(true).create(true).open(&path).expect("scratch file");
        let _ = std::fs::remove_file(&path);
        let saved = unsafe { dup(2) };
        unsafe { dup2(file.as_raw_fd(), 2) };
        Capture { file, saved }
    }
    fn reset(&self) {
        use std::os::fd::AsRawFd;
        unsafe { ftruncate(self.file.as_raw_fd(), 0) };
    }
    fn text(&mut self) -> String {
        use std::io::{Read, Seek, SeekFrom};
        let mut s = Vec::new();
        let _ = self.file.seek(SeekFrom::Start(0));
        let _ = self.file.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    }
    fn stop(self) {
        unsafe { dup2(self.saved, 2) };
    }
}

/// the record as printed: groups of hex digits between bars
fn parse_record(line: &str) -> Option<Vec<String>> {
    let t = line.trim();
    let t = t.strip_prefix("[|")?.strip_suffix(']')?;
    if t.is_empty() {
        return Some(vec![]);
    }
    let t = t.strip_suffix('|')?;
    let v: Vec<String> = t.split('|').map(|s| s.to_string()).collect();
    if v.iter().all(|s| s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit())) {
        Some(v)
    } else {
        None
    }
}

fn record_matches(text: &str, m: &Model<'_>) -> Result<(), String> {
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let Some(last) = lines.last() else { return Err("nothing printed".into()) };
    let Some(got) = parse_record(last) else { return Err(format!("not a record: {last}")) };
    // the pieces with bytes in them, each with the number of empty pieces before it:
    // operations that consume nothing by themselves are in the record, while those
    // which make up larger ones (a skipped empty payload, say) need not be
    let mut want = vec![(0usize, 0usize, String::new())];
    let mut at = 0;
    for (i, n) in m.spans.iter().enumerate() {
        let l = want.last_mut().unwrap();
        if *n > 0 {
            l.2 = mon::rep::hex(&m.buf[at..at + n]);
            want.push((0, 0, String::new()));
        } else if m.empty.contains(&i) {
            l.0 += 1;
            l.1 += 1;
        } else {
            l.1 += 1;
        }
        at += n;
    }
    let mut have = vec![(0usize, String::new())];
    for p in &got {
        let l = have.last_mut().unwrap();
        if p.is_empty() {
            l.0 += 1;
        } else {
            l.1 = p.clone();
            have.push((0, String::new()));
        }
    }
    if have.len() == want.len() && have.iter().zip(&want).all(|(h, w)| h.1 == w.2 && h.0 >= w.0 && h.0 <= w.1) {
        Ok(())
    } else {
        Err(format!("record {got:?}, consumed (at least and at most so many empty reads, then) {want:?}"))
    }
}

fn c17_long(c: &mut Ctx, cap: &mut Option<Capture>, r: &mut Rng) {
    let (buf, mut d) = Long::new(r);
    c17_drive(c, cap, r, buf, usize::MAX, &mut |m, r, step| d.op(m, r, step));
}

fn c17(c: &mut Ctx, cap: &mut Option<Capture>, r: &mut Rng) {
    let mut buf = gen_buf(r);
    if r.chance(1, 10) {
        // spans around the sizes a compact record would care about
        let n = if r.chance(1, 20) { 65_530 + r.below(300) } else { *r.pick(&[130usize, 140, 256, 260, 300, 520, 1100]) + r.below(4) };
        buf = r.bytes(n);
    } else {
        buf.truncate(120);
    }
    let steps = r.range(0, 30);
    let bias = *r.pick(&[Bias::Even, Bias::Even, Bias::Skips, Bias::Windows]);
    let every = if r.chance(1, 3) { 1 } else { usize::MAX };
    c17_drive(c, cap, r, buf, every, &mut |m, r, step| (step < steps).then(|| gen_op(m, r, bias)));
}

fn c17_drive(c: &mut Ctx, cap: &mut Option<Capture>, r: &mut Rng, buf: Vec<u8>, every: usize, next: &mut NextOp<'_>) {
    let mut m = Model::new(&buf);
    let mut memo = AnyP::new(Kind::Memo, &buf);
    let mut byte = AnyP::new(Kind::Byte, &buf);
    let mut ops = vec![];
    let cap = cap.as_mut().unwrap();
    for i in 0usize.. {
        // how the provided iterator methods consume is theirs to choose
        let op = next(&m, r, i).map(|o| if matches!(o, Op::Iter(..)) { Op::Next } else { o });
        let last = op.is_none();
        if let Some(op) = op {
            let want = m.apply(&op);
            cap.reset();
            let o = c.guard(|| {
                let a = apply(&mut memo, &op);
                let b = apply(&mut byte, &op);
                (a, b, state(&memo), state(&byte))
            });
            ops.push(op.clone());
            let here = || format!("buf {}, [{}]", show_buf(&buf), show(&ops));
            match o {
                Err(p) => return c.violation(format!("trace:{}:panic", opname(&op)), format!("{}: {}", here(), p.0)),
                Ok((a, b, sa, sb)) => {
                    c.count("traced operations compared with untraced", 1);
                    if a != b || sa != sb {
                        return c.violation(format!("trace:{}:changes-result", opname(&op)), format!("{}: traced {:?} {:?}, untraced {:?} {:?}", here(), a, sa, b, sb));
                    }
                    if !a.ok() {
                        // a failing read prints the record as it stands
                        let t = cap.text();
                        if parse_record(t.lines().last().unwrap_or("")).is_some() {
                            c.count("records printed on failure", 1);
                            if let (Err(e), true) = (record_matches(&t, &m), a == want) {
                                return c.violation(format!("trace:{}:record-on-failure", opname(&op)), format!("{}: {e}", here()));
                            }
                        }
                    }
                    if a.ok() != want.ok() || sa.0 != m.rem() {
                        // not the contract: other properties' business; the record cannot be predicted
                        return;
                    }
                }
            }
        }
        if last || i % every == every - 1 {
            cap.reset();
            let o = c.guard(|| match &memo {
                AnyP::M(p) => p.dump_state(),
                _ => unreachable!(),
            });
            let latest = ops.last().map(opname).unwrap_or("fresh");
            let here = || format!("buf {}, [{}]", show_buf(&buf), show(&ops));
            if let Err(p) = o {
                return c.violation(format!("record:{latest}:panic"), format!("{}: {}", here(), p.0));
            }
            let t = cap.text();
            c.count("records observed", 1);
            c.count("spans observed", m.spans.iter().filter(|n| **n > 0).count() as u64);
            if let Err(e) = record_matches(&t, &m) {
                return c.violation(format!("record:{latest}"), format!("{}: {e}", here()));
            }
        }
        if last {
            break;
        }
    }
    c.seen(format!("{}{}", show_buf(&buf), show(&ops)).as_bytes());
    c.sample(|| format!("buf {} ops {} spans {:?}", show_buf(&buf), show(&ops), m.spans));
}

/// C17: whole decodes through the tracing parser leave a record equal to the reads
fn c17_decode(c: &mut Ctx, cap: &mut Option<Capture>, r: &mut Rng, types: &[mon::ops::TyOps]) {
    let k = r.pick(types);
    let size = r.range(0, 16);
    let (b, _) = mon::model::gen_input(&k.schema, r, size);
    if mon::model::decode_all(&k.schema, &b) == Err(mon::model::Rej::NoProgress) {
        return;
    }
    let cap = cap.as_mut().unwrap();
    // the reads an untraced parser performs for the same decode
    let o = c.guard(|| {
        let mut p = AnyP::logged(Kind::Byte, &b, 200_000);
        let _ = (k.parse)(&mut p);
        std::mem::take(&mut p.mon().log)
    });
    let Ok(log) = o else { return };
    let mut m = Model::new(&b);
    for e in &log {
        let n = match e {
            mon::monparser::Ev::Byte(Some(_)) => 1,
            mon::monparser::Ev::Consume(n, Some(_)) => *n,
            _ => continue,
        };
        m.pos += n;
        m.spans.push(n);
    }
    cap.reset();
    let o = c.guard(|| {
        let mut p = AnyP::new(Kind::Memo, &b);
        let ok = (k.parse)(&mut p).is_ok();
        let pos = p.offset();
        if let AnyP::M(p) = &p {
            p.dump_state()
        }
        (ok, pos)
    });
    let t = cap.text();
    c.count("decodes traced", 1);
    c.seen(format!("{}{}", k.name, mon::rep::hex(&b)).as_bytes());
    match o {
        Err(p) => c.violation("decode:panic", format!("{} {}: {}", k.name, show_buf(&b), p.0)),
        Ok((_, pos)) => {
            if pos != m.pos {
                c.violation("decode:position", format!("{} {}: at {pos}, the reads add up to {}", k.name, show_buf(&b), m.pos));
            } else {
                // type-level reads may be grouped differently by each parser: the
                // record must still be made of the consumed bytes, in order
                let joined: Option<String> = t.lines().last().and_then(parse_record).map(|v| v.concat());
                if joined != Some(mon::rep::hex(&b[..pos])) {
                    c.violation("decode:record", format!("{} {}: record {:?}, consumed {}", k.name, show_buf(&b), joined, mon::rep::hex(&b[..pos])));
                } else if let Err(e) = record_matches(&t, &m) {
                    c.violation("decode:record-spans", format!("{} {}: {e}", k.name, show_buf(&b)));
                }
            }
        }
    }
}

fn main() {
    let mut c = Ctx::from_args("C05");
    let prop = c.prop.clone();
    match prop.as_str() {
        "C05" | "C06" | "C15" | "C18" | "C21" => {
            let n = c.n(60_000, 3_000_000);
            let p = prop.clone();
            c.cases("even", n / 2, |c, r| history(c, &p, r, Bias::Even));
            c.cases("windows", n / 2, |c, r| history(c, &p, r, Bias::Windows));
            if p == "C18" || p == "C05" {
                c.cases("skips", n / 2, |c, r| history(c, &p, r, Bias::Skips));
            }
            if p == "C18" {
                c.cases("pairs", n * 2, skip_vs_read);
            }
            c.cases("deep", n / 60, |c, r| deep(c, &p, r));
            c.cases("long", n / 400, |c, r| long(c, &p, r));
            c.cases("large", n / 250, |c, r| large(c, &p, r));
            if p == "C15" {
                c.cases("leftover", n, leftover_ops);
            }
        }
        "C17" => {
            let n = c.n(25_000, 600_000);
            let types = mon::ops::universe();
            let mut cap = Some(Capture::start());
            c.cases("trace", n, |c, r| c17(c, &mut cap, r));
            c.cases("long", n / 1500, |c, r| c17_long(c, &mut cap, r));
            c.cases("decode", n / 2, |c, r| c17_decode(c, &mut cap, r, &types));
            cap.take().unwrap().stop();
        }
        p => panic!("hist does not decide {p}"),
    }
    OPS.with(|t| {
        for (i, [err, ok]) in t.borrow().iter().enumerate() {
            c.count(&format!("op {} succeeded", hist::NAMES[i]), *ok);
            c.count(&format!("op {} failed", hist::NAMES[i]), *err);
        }
    });
    c.finish()
}
