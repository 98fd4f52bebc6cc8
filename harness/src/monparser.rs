//! Instrumented parser: wraps a real parser and records every primitive
//! operation (an event log), enforces a logical step budget, and optionally
//! checks an online specification of the log.

use std::cell::Cell;
use tedium::parse::cleanup::CleanupResult;
use tedium::parse::ParseResult;
use tedium::Parser;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Byte(Option<u8>),
    Consume(usize, Option<Vec<u8>>),
    SetFit(usize, bool),
    Enforce(bool),
    Test,
}

pub struct MonParser<P: Parser> {
    pub inner: P,
    pub log: Vec<Ev>,
    pub steps: Cell<u64>,
    pub budget: u64,
    pub record: bool,
}

pub const BUDGET_MSG: &str = "MON-STEP-BUDGET-EXCEEDED";

impl<P: Parser> MonParser<P> {
    pub fn new(inner: P, budget: u64) -> Self {
        MonParser { inner, log: vec![], steps: Cell::new(0), budget, record: true }
    }
    fn step(&self) {
        let s = self.steps.get() + 1;
        self.steps.set(s);
        if s > self.budget {
            panic!("{}", BUDGET_MSG);
        }
    }
    fn push(&mut self, e: Ev) {
        if self.record {
            self.log.push(e)
        }
    }
}

impl<P: Parser> Parser for MonParser<P> {
    type Buffer = P::Buffer;
    fn from_buffer(buf: Self::Buffer) -> Self {
        MonParser::new(P::from_buffer(buf), 1_000_000)
    }
    fn view_len(&self) -> usize {
        self.step();
        self.inner.view_len()
    }
    fn offset(&self) -> usize {
        self.step();
        self.inner.offset()
    }
    fn remainder(&self) -> usize {
        self.step();
        self.inner.remainder()
    }
    fn consume_byte(&mut self) -> ParseResult<u8> {
        self.step();
        let r = self.inner.consume_byte();
        let e = Ev::Byte(r.as_ref().ok().copied());
        self.push(e);
        r
    }
    fn consume(&mut self, n: usize) -> ParseResult<&[u8]> {
        self.step();
        // two phases: the log entry must be made before the borrow escapes
        let r = self.inner.consume(n);
        match r {
            Ok(b) => {
                if self.record {
                    self.log.push(Ev::Consume(n, Some(b.to_vec())));
                }
                Ok(b)
            }
            Err(e) => {
                if self.record {
                    self.log.push(Ev::Consume(n, None));
                }
                Err(e)
            }
        }
    }
    fn set_fit(&mut self, n: usize) -> ParseResult<()> {
        self.step();
        let r = self.inner.set_fit(n);
        let ok = r.is_ok();
        self.push(Ev::SetFit(n, ok));
        r
    }
    fn test_target(&mut self) -> ParseResult<bool> {
        self.step();
        self.push(Ev::Test);
        self.inner.test_target()
    }
    fn enforce_target(&mut self) -> ParseResult<()> {
        self.step();
        let r = self.inner.enforce_target();
        let ok = r.is_ok();
        self.push(Ev::Enforce(ok));
        r
    }
    fn cleanup(self) -> CleanupResult {
        self.inner.cleanup()
    }
}

/// What the event log says happened: bytes consumed, window extents, whether
/// every opened window was closed.
#[derive(Debug, Default, PartialEq, Eq, Clone)]
pub struct LogFacts {
    pub consumed: usize,
    pub windows: Vec<(usize, usize)>,
    pub unclosed: usize,
    pub breach: Option<String>,
    pub failed_ops: usize,
}

/// Offline check of a recorded log against the buffer it was recorded on.
pub fn check_log(log: &[Ev], buf: &[u8]) -> LogFacts {
    let mut f = LogFacts::default();
    let mut pos = 0usize;
    let mut stack: Vec<usize> = vec![];
    for e in log {
        let end = *stack.last().unwrap_or(&buf.len());
        match e {
            Ev::Byte(Some(b)) => {
                if pos >= end {
                    f.breach.get_or_insert(format!("byte read at {pos} past window end {end}"));
                } else if buf[pos] != *b {
                    f.breach.get_or_insert(format!("byte at {pos} is {:02x}, parser returned {:02x}", buf[pos], b));
                }
                pos += 1;
            }
            Ev::Byte(None) => {
                f.failed_ops += 1;
                if pos < end {
                    f.breach.get_or_insert(format!("byte read refused at {pos} inside window end {end}"));
                }
            }
            Ev::Consume(n, Some(b)) => {
                if pos + n > end {
                    f.breach.get_or_insert(format!("{n} bytes read at {pos} past window end {end}"));
                } else if &buf[pos..pos + n] != b.as_slice() {
                    f.breach.get_or_insert(format!("{n} bytes at {pos} differ from the buffer"));
                }
                pos += n;
            }
            Ev::Consume(n, None) => {
                f.failed_ops += 1;
                if pos.checked_add(*n).map_or(false, |x| x <= end) {
                    f.breach.get_or_insert(format!("read of {n} refused at {pos} inside window end {end}"));
                }
            }
            Ev::SetFit(n, ok) => {
                let fits = pos.checked_add(*n).map_or(false, |x| x <= end);
                if *ok != fits {
                    f.breach.get_or_insert(format!("window of {n} at {pos} (end {end}): success={ok}"));
                }
                if *ok {
                    f.windows.push((pos, pos.saturating_add(*n)));
                    stack.push(pos.saturating_add(*n));
                } else {
                    f.failed_ops += 1;
                }
            }
            Ev::Enforce(ok) => {
                let can = stack.last() == Some(&pos);
                if *ok != can {
                    f.breach.get_or_insert(format!("close at {pos} with windows {stack:?}: success={ok}"));
                }
                if *ok {
                    stack.pop();
                } else {
                    f.failed_ops += 1;
                }
            }
            Ev::Test => {}
        }
    }
    f.consumed = pos;
    f.unclosed = stack.len();
    f
}
