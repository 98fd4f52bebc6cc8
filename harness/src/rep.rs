//! Run context: arguments, deterministic case enumeration, guarded calls into
//! the library, violation recording, coverage counters and the summary file.

use crate::prng::{hash_bytes, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

static CALL_START_CPU_MS: AtomicU64 = AtomicU64::new(0);
static IN_CALL: AtomicBool = AtomicBool::new(false);
static JOURNAL: Mutex<Option<std::fs::File>> = Mutex::new(None);
static HANG_LABEL: Mutex<String> = Mutex::new(String::new());

fn cpu_ms() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let tail = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = tail.split_whitespace().collect();
    let get = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    // utime + stime in clock ticks (100 Hz)
    (get(11) + get(12)) * 10
}

/// CPU milliseconds one guarded call may use before it counts as not terminating.
/// Ordinary calls take microseconds; the measure is CPU time of this process,
/// not wall-clock time, so a loaded machine does not trip it.
pub const CALL_CPU_BUDGET_MS: u64 = 25_000;

#[derive(Clone, Debug)]
pub struct Panicked(pub String);

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<String>,
    out: Option<String>,
    start: Instant,
    pub time_cap: f64,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<(String, String, String)>,
    seen_sigs: HashSet<String>,
    pub suppressed: u64,
    label: String,
    pub scale: f64,
    truncated: bool,
    /// observation log: stream -> chained hash, and one line per case in a file
    digests: BTreeMap<String, u64>,
    case_obs: Vec<String>,
    case_hash: u64,
    obs: Option<std::io::BufWriter<std::fs::File>>,
}

pub fn json_escape(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

impl Ctx {
    /// args: --prop ID --seed N --tier T --out FILE --journal FILE [--case LABEL] [--cap SECS] [--scale X]
    pub fn from_args(prop: &str) -> Ctx {
        let mut c = Ctx {
            prop: prop.to_string(),
            seed: 1,
            thorough: false,
            only: None,
            out: None,
            start: Instant::now(),
            time_cap: 240.0,
            evaluations: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            seen_sigs: HashSet::new(),
            suppressed: 0,
            label: String::new(),
            scale: 1.0,
            truncated: false,
            digests: BTreeMap::new(),
            case_obs: vec![],
            case_hash: 0,
            obs: None,
        };
        let mut a = std::env::args().skip(1);
        while let Some(k) = a.next() {
            let mut v = || a.next().expect("missing argument value");
            match k.as_str() {
                "--prop" => c.prop = v(),
                "--seed" => c.seed = v().parse().expect("seed"),
                "--tier" => c.thorough = v() == "thorough",
                "--out" => c.out = Some(v()),
                "--journal" => {
                    *JOURNAL.lock().unwrap() = Some(std::fs::File::create(v()).expect("journal"));
                }
                "--case" => c.only = Some(v()),
                "--obs" => c.obs = Some(std::io::BufWriter::new(std::fs::File::create(v()).expect("observation log"))),
                "--cap" => c.time_cap = v().parse().expect("cap"),
                "--scale" => c.scale = v().parse().expect("scale"),
                _ => panic!("unknown argument {k}"),
            }
        }
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<non-string panic>".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let text = format!("{msg} @ {loc}");
            LAST_PANIC.with(|p| *p.borrow_mut() = text.clone());
            if !IN_CALL.load(Ordering::Relaxed) {
                eprintln!("harness panic: {text}");
            }
        }));
        if !cfg!(miri) {
            std::thread::spawn(|| loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                if IN_CALL.load(Ordering::Relaxed) {
                    let start = CALL_START_CPU_MS.load(Ordering::Relaxed);
                    if start != 0 && cpu_ms().saturating_sub(start) > CALL_CPU_BUDGET_MS {
                        if let Ok(l) = HANG_LABEL.lock() {
                            journal_write(&format!("HANG {}", *l));
                        }
                        std::process::exit(97);
                    }
                }
            });
        }
        c
    }

    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let x = if self.thorough { thorough } else { quick };
        ((x as f64 * self.scale) as u64).max(1)
    }

    /// Run `f` for cases `0..n` of stream `stream`, each with its own PRNG.
    pub fn cases(&mut self, stream: &str, n: u64, mut f: impl FnMut(&mut Ctx, &mut Rng)) {
        if let Some(only) = self.only.clone() {
            if let Some((s, ix)) = only.rsplit_once('#') {
                if s == stream {
                    let ix: u64 = ix.parse().expect("case index");
                    self.set_label(format!("{stream}#{ix}"));
                    let mut r = Rng::for_case(self.seed, stream, ix);
                    self.evaluations += 1;
                    self.one(&mut f, &mut r);
                    self.close_case(stream);
                }
            }
            return;
        }
        for ix in 0..n {
            if ix & 63 == 0 {
                if self.elapsed() > self.time_cap {
                    self.truncated = true;
                    self.count("streams cut by the time cap", 1);
                    break;
                }
                CALL_START_CPU_MS.store(cpu_ms().max(1), Ordering::Relaxed);
            }
            self.set_label(format!("{stream}#{ix}"));
            let mut r = Rng::for_case(self.seed, stream, ix);
            self.evaluations += 1;
            self.one(&mut f, &mut r);
            self.close_case(stream);
        }
    }

    /// One case. A panic no trap was set for is the library's if it was raised
    /// in the library's sources (the harness expected that call to succeed), and
    /// otherwise the harness's own: then nothing can be decided.
    fn one(&mut self, f: &mut impl FnMut(&mut Ctx, &mut Rng), r: &mut Rng) {
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(self, r))) {
            let text = LAST_PANIC.with(|p| p.borrow().clone());
            match text.rsplit_once(" @ ").map(|(_, at)| at.rsplit_once(':').map_or(at, |x| x.0)) {
                Some(at) if at.contains("/repo/") => {
                    let file = at.rsplit('/').next().unwrap_or(at).to_string();
                    self.violation(format!("panic/{file}"), text);
                }
                _ => std::panic::resume_unwind(e),
            }
        }
    }

    /// Append one observation of the current case to the observation log. Logs
    /// of the same case made by different builds are compared by the runner.
    pub fn observe(&mut self, text: impl AsRef<str>) {
        let t = text.as_ref();
        let mut b = self.case_hash.to_le_bytes().to_vec();
        b.extend_from_slice(t.as_bytes());
        self.case_hash = hash_bytes(&b) | 1;
        self.count("observations logged", 1);
        if self.only.is_some() {
            self.case_obs.push(t.to_string());
        }
    }

    fn close_case(&mut self, stream: &str) {
        if self.case_hash == 0 {
            return;
        }
        let h = std::mem::take(&mut self.case_hash);
        let d = self.digests.entry(stream.to_string()).or_insert(0);
        let mut b = d.to_le_bytes().to_vec();
        b.extend_from_slice(&h.to_le_bytes());
        *d = hash_bytes(&b);
        if let Some(f) = &mut self.obs {
            let _ = writeln!(f, "{} {:016x}", self.label, h);
        }
    }

    pub fn elapsed(&self) -> f64 {
        if cfg!(miri) {
            0.0
        } else {
            self.start.elapsed().as_secs_f64()
        }
    }

    fn set_label(&mut self, l: String) {
        self.label = l;
        if !cfg!(miri) {
            if let Ok(mut h) = HANG_LABEL.lock() {
                h.clear();
                h.push_str(&self.label);
            }
        }
    }

    /// Index of the running case in its stream.
    pub fn case_index(&self) -> u64 {
        self.label.rsplit_once('#').and_then(|(_, ix)| ix.parse().ok()).unwrap_or(0)
    }

    pub fn label(&self) -> &str {
        &self.label
    }

    pub fn count(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }

    /// record a non-trivial observation; counted once per distinct fingerprint
    pub fn seen(&mut self, fingerprint: &[u8]) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(hash_bytes(fingerprint));
        }
    }
    pub fn seen_u64(&mut self, fp: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(fp);
        }
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        let n = self.samples.len();
        if n < 12 && (n < 4 || self.evaluations % 997 == 0) {
            let t = s();
            let t = format!("{}: {}", self.label, clip(&t, 300));
            self.samples.push(t);
        }
    }

    /// Report that the property was observed broken. `sig` identifies the
    /// failure independently of the random case (type, operation, kind).
    pub fn violation(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let sig = sig.into();
        if self.seen_sigs.insert(sig.clone()) && self.violations.len() < 60 {
            let d = clip(&detail.into(), 1500);
            eprintln!("VIOLATION-SIG {} case={} :: {}", sig, self.label, d);
            self.violations.push((sig, self.label.clone(), d));
        } else {
            self.suppressed += 1;
        }
    }

    pub fn check(&mut self, ok: bool, sig: impl FnOnce() -> String, detail: impl FnOnce() -> String) {
        if !ok {
            self.violation(sig(), detail());
        }
    }

    /// Call into the library; a panic is returned, not propagated.
    pub fn guard<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, Panicked> {
        guard(&self.label, f)
    }

    pub fn finish(mut self) -> ! {
        if let Some(f) = &mut self.obs {
            f.flush().expect("observation log");
        }
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"prop\":\"{}\",\"seed\":{},\"tier\":\"{}\",\"evaluations\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.3},\"truncated\":{},\"debug_assertions\":{},",
            self.prop,
            self.seed,
            if self.thorough { "thorough" } else { "quick" },
            self.evaluations,
            self.distinct.len(),
            self.elapsed(),
            self.truncated,
            cfg!(debug_assertions)
        );
        o.push_str("\"counters\":{");
        for (i, (k, v)) in self.counters.iter().enumerate() {
            let _ = write!(o, "{}\"{}\":{}", if i > 0 { "," } else { "" }, json_escape(k), v);
        }
        o.push_str("},\"digests\":{");
        for (i, (k, v)) in self.digests.iter().enumerate() {
            let _ = write!(o, "{}\"{}\":\"{:016x}\"", if i > 0 { "," } else { "" }, json_escape(k), v);
        }
        o.push_str("},\"observed\":[");
        for (i, t) in self.case_obs.iter().enumerate() {
            let _ = write!(o, "{}\"{}\"", if i > 0 { "," } else { "" }, json_escape(t));
        }
        o.push_str("],\"samples\":[");
        for (i, s) in self.samples.iter().enumerate() {
            let _ = write!(o, "{}\"{}\"", if i > 0 { "," } else { "" }, json_escape(s));
        }
        let _ = write!(o, "],\"repeat_violations\":{},\"violations\":[", self.suppressed);
        for (i, (s, l, d)) in self.violations.iter().enumerate() {
            let _ = write!(
                o,
                "{}{{\"sig\":\"{}\",\"case\":\"{}\",\"detail\":\"{}\"}}",
                if i > 0 { "," } else { "" },
                json_escape(s),
                json_escape(l),
                json_escape(d)
            );
        }
        o.push_str("]}");
        if let Some(p) = &self.out {
            std::fs::write(p, o.as_bytes()).expect("write summary");
        } else {
            println!("SUMMARY {o}");
        }
        std::process::exit(0)
    }
}

fn journal_write(s: &str) {
    if cfg!(miri) {
        return;
    }
    if let Ok(mut g) = JOURNAL.lock() {
        if let Some(f) = g.as_mut() {
            let _ = f.seek(SeekFrom::Start(0));
            let mut line = s.to_string();
            while line.len() < 200 {
                line.push(' ');
            }
            line.push('\n');
            let _ = f.write_all(line.as_bytes());
        }
    }
}

/// Guarded call into the code under test: journals the case so that a crash of
/// the process can be attributed, arms the CPU budget, catches panics.
pub fn guard<T>(label: &str, f: impl FnOnce() -> T) -> Result<T, Panicked> {
    if IN_CALL.load(Ordering::Relaxed) {
        // nested guard
        return catch_unwind(AssertUnwindSafe(f)).map_err(|_| Panicked(LAST_PANIC.with(|p| p.borrow().clone())));
    }
    journal_once(label);
    IN_CALL.store(true, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.store(false, Ordering::Relaxed);
    r.map_err(|_| Panicked(LAST_PANIC.with(|p| p.borrow().clone())))
}

thread_local! {
    static LAST_JOURNAL: RefCell<String> = RefCell::new(String::new());
}
fn journal_once(label: &str) {
    LAST_JOURNAL.with(|l| {
        let mut l = l.borrow_mut();
        if *l != label {
            l.clear();
            l.push_str(label);
            journal_write(&format!("CALL {label}"));
        }
    })
}

/// The harness is between calls: a crash from here on is not the library's
pub fn journal_idle() {
    journal_once("-");
    journal_write("IDLE");
}
