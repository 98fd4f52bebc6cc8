//! Type-erased access to the codec types of the universe, so that the monitors
//! themselves are compiled once and not once per type.
//!
//! `AnyP` and `AnyT` are plain dispatchers: every trait method forwards to the
//! same method of the real parser or target inside, so overridden provided
//! methods of those types are the ones that run.

use crate::hist::Out;
use crate::model::{Schema, Value};
use crate::monparser::MonParser;
use crate::ty::{name, Ty};
use std::any::Any;
use tedium::conv::EncodeLength;
use tedium::error::WidthError;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::parse::cleanup::CleanupResult;
use tedium::parse::error::{TagType, TagValidator};
use tedium::parse::{ParseResult, ParserExt};
use tedium::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Byte,
    Memo,
    Slice,
}
pub const KINDS: [Kind; 3] = [Kind::Byte, Kind::Memo, Kind::Slice];

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Byte => "byte",
            Kind::Memo => "memo",
            Kind::Slice => "slice",
        }
    }
}

pub enum AnyP<'a> {
    B(ByteParser),
    M(MemoParser),
    S(SliceParser<'a>),
    /// recording wrapper around any of the others
    L(Box<MonParser<AnyP<'a>>>),
}

impl<'a> AnyP<'a> {
    pub fn new(k: Kind, b: &'a [u8]) -> AnyP<'a> {
        match k {
            Kind::Byte => AnyP::B(ByteParser::from_buffer(VecBuffer::from(b))),
            Kind::Memo => AnyP::M(MemoParser::from_buffer(VecBuffer::from(b))),
            Kind::Slice => AnyP::S(SliceParser::from_buffer(SliceBuffer::from(b))),
        }
    }
    /// with an event log and a step budget
    pub fn logged(k: Kind, b: &'a [u8], budget: u64) -> AnyP<'a> {
        AnyP::L(Box::new(MonParser::new(AnyP::new(k, b), budget)))
    }
    pub fn mon(&mut self) -> &mut MonParser<AnyP<'a>> {
        match self {
            AnyP::L(m) => m,
            _ => panic!("harness: not a logged parser"),
        }
    }
    pub fn next_item(&mut self) -> Option<u8> {
        match self {
            AnyP::B(p) => p.next(),
            AnyP::M(p) => p.next(),
            AnyP::S(p) => p.next(),
            AnyP::L(p) => p.consume_byte().ok(),
        }
    }
    /// the parser used as an iterator, through the methods of `Iterator`
    pub fn iterate(&mut self, kind: u8, n: usize) -> Out {
        fn go<I: Iterator<Item = u8>>(p: &mut I, rem: usize, kind: u8, n: usize) -> Out {
            match kind {
                0 => Out::Opt(p.nth(n).map(|b| vec![b])),
                1 => Out::Bytes(p.take(n).collect()),
                2 => Out::Opt(p.skip(n).next().map(|b| vec![b])),
                3 => {
                    let (lo, hi) = p.size_hint();
                    Out::Flag(lo <= rem && hi.map_or(true, |h| h >= rem))
                }
                4 => Out::Num(p.position(|b| b == n as u8).map_or(-1, |i| i as i128)),
                5 => Out::Num(p.by_ref().count() as i128),
                6 => Out::Bytes(p.step_by(n + 1).take(2).collect()),
                _ => Out::Opt(p.by_ref().last().map(|b| vec![b])),
            }
        }
        let rem = self.remainder();
        match self {
            AnyP::B(p) => go(p, rem, kind, n),
            AnyP::M(p) => go(p, rem, kind, n),
            AnyP::S(p) => go(p, rem, kind, n),
            AnyP::L(p) => go(&mut std::iter::from_fn(|| p.consume_byte().ok()), rem, kind, n),
        }
    }
    pub fn debug(&self) -> String {
        match self {
            AnyP::B(p) => format!("{p:?}"),
            AnyP::M(p) => format!("{p:?}"),
            AnyP::S(p) => format!("{p:?}"),
            AnyP::L(_) => String::new(),
        }
    }
}

macro_rules! d {
    ($self:ident, $p:ident => $e:expr) => {
        match $self {
            AnyP::B($p) => $e,
            AnyP::M($p) => $e,
            AnyP::S($p) => $e,
            AnyP::L($p) => $e,
        }
    };
}

impl<'a> Parser for AnyP<'a> {
    type Buffer = VecBuffer;
    fn from_buffer(buf: Self::Buffer) -> Self {
        AnyP::B(ByteParser::from_buffer(buf))
    }
    fn view_len(&self) -> usize {
        d!(self, p => p.view_len())
    }
    fn offset(&self) -> usize {
        d!(self, p => p.offset())
    }
    fn remainder(&self) -> usize {
        d!(self, p => p.remainder())
    }
    fn consume_byte(&mut self) -> ParseResult<u8> {
        d!(self, p => p.consume_byte())
    }
    fn consume(&mut self, n: usize) -> ParseResult<&[u8]> {
        d!(self, p => p.consume(n))
    }
    fn set_fit(&mut self, n: usize) -> ParseResult<()> {
        d!(self, p => p.set_fit(n))
    }
    fn test_target(&mut self) -> ParseResult<bool> {
        d!(self, p => p.test_target())
    }
    fn enforce_target(&mut self) -> ParseResult<()> {
        d!(self, p => p.enforce_target())
    }
    fn consume_arr<const N: usize>(&mut self) -> ParseResult<[u8; N]> {
        d!(self, p => p.consume_arr::<{ N }>())
    }
    fn take_u8(&mut self) -> ParseResult<u8> {
        d!(self, p => p.take_u8())
    }
    fn take_i8(&mut self) -> ParseResult<i8> {
        d!(self, p => p.take_i8())
    }
    fn take_u16(&mut self) -> ParseResult<u16> {
        d!(self, p => p.take_u16())
    }
    fn take_i16(&mut self) -> ParseResult<i16> {
        d!(self, p => p.take_i16())
    }
    fn take_u32(&mut self) -> ParseResult<u32> {
        d!(self, p => p.take_u32())
    }
    fn take_i32(&mut self) -> ParseResult<i32> {
        d!(self, p => p.take_i32())
    }
    fn take_u64(&mut self) -> ParseResult<u64> {
        d!(self, p => p.take_u64())
    }
    fn take_f64(&mut self) -> ParseResult<f64> {
        d!(self, p => p.take_f64())
    }
    fn take_i64(&mut self) -> ParseResult<i64> {
        d!(self, p => p.take_i64())
    }
    fn take_bool(&mut self) -> ParseResult<bool> {
        d!(self, p => p.take_bool())
    }
    fn take_tagword<T, U, V>(&mut self, v: V) -> ParseResult<U>
    where
        U: TagType + tedium::conv::Decode,
        Self: Sized,
        V: TagValidator<U>,
    {
        d!(self, p => p.take_tagword::<T, U, V>(v))
    }
    fn take_dynamic(&mut self, nbytes: usize) -> ParseResult<Vec<u8>> {
        d!(self, p => p.take_dynamic(nbytes))
    }
    fn take_fixed<const N: usize>(&mut self) -> ParseResult<[u8; N]> {
        d!(self, p => p.take_fixed::<{ N }>())
    }
    fn take_self_terminating<F>(&mut self, is_terminal: F) -> ParseResult<Vec<u8>>
    where
        F: Fn(u8) -> bool,
    {
        d!(self, p => p.take_self_terminating(is_terminal))
    }
    fn cleanup(self) -> CleanupResult {
        match self {
            AnyP::B(p) => p.cleanup(),
            AnyP::M(p) => p.cleanup(),
            AnyP::S(p) => p.cleanup(),
            AnyP::L(p) => p.cleanup(),
        }
    }
}

macro_rules! dx {
    ($self:ident, $p:ident => $e:expr) => {
        match $self {
            AnyP::B($p) => $e,
            AnyP::M($p) => $e,
            AnyP::S($p) => $e,
            AnyP::L(_) => panic!("harness: no extension methods on the logged parser"),
        }
    };
}

impl<'a> ParserExt for AnyP<'a> {
    fn skip(&mut self, n: usize) -> ParseResult<usize> {
        dx!(self, p => ParserExt::skip(p, n))
    }
    fn skip_exactly(&mut self, n: usize) -> ParseResult<()> {
        dx!(self, p => p.skip_exactly(n))
    }
    fn skip_dynamic<L: tedium::dynamic::LenPref>(&mut self) -> ParseResult<usize> {
        dx!(self, p => p.skip_dynamic::<L>())
    }
    fn process_prefix<L: tedium::dynamic::LenPref>(&mut self) -> ParseResult<usize> {
        dx!(self, p => p.process_prefix::<L>())
    }
    fn fast_kv_search<K, V, F, const M: usize, const N: usize>(&mut self, k: &[u8; M], f: F) -> ParseResult<Option<V>>
    where
        F: FnOnce([u8; N]) -> V,
    {
        dx!(self, p => p.fast_kv_search::<K, V, F, { M }, { N }>(k, f))
    }
}

/// dispatching output target
pub enum AnyT {
    V(Vec<u8>),
    C(tedium::conv::target::ByteCounter),
    S(StrictBuilder),
    M(MemoBuilder),
    H(HexString),
}
pub const NTARGETS: usize = 5;
pub const TARGET_NAMES: [&str; NTARGETS] = ["vec", "counter", "strict", "memo", "hexstring"];

impl AnyT {
    pub fn make(i: usize) -> AnyT {
        match i {
            0 => AnyT::V(Target::create()),
            1 => AnyT::C(Target::create()),
            2 => AnyT::S(Target::create()),
            3 => AnyT::M(Target::create()),
            4 => AnyT::H(Target::create()),
            _ => unreachable!(),
        }
    }
    /// content, unless the target only counts
    pub fn content(&self) -> Option<Vec<u8>> {
        match self {
            AnyT::V(v) => Some(v.clone()),
            AnyT::C(_) => None,
            AnyT::S(b) => Some(b.clone().into_vec()),
            AnyT::M(b) => Some(b.clone().into_vec()),
            AnyT::H(h) => Some(h.as_bytes().to_vec()),
        }
    }
}

macro_rules! t {
    ($self:ident, $p:ident => $e:expr) => {
        match $self {
            AnyT::V($p) => $e,
            AnyT::C($p) => $e,
            AnyT::S($p) => $e,
            AnyT::M($p) => $e,
            AnyT::H($p) => $e,
        }
    };
}

impl Target for AnyT {
    fn anticipate(&mut self, extra: usize) {
        t!(self, p => p.anticipate(extra))
    }
    fn create() -> Self {
        AnyT::V(vec![])
    }
    fn push_one(&mut self, b: u8) -> usize {
        t!(self, p => p.push_one(b))
    }
    fn push_many<const N: usize>(&mut self, arr: [u8; N]) -> usize {
        t!(self, p => p.push_many::<{ N }>(arr))
    }
    fn push_all(&mut self, buf: &[u8]) -> usize {
        t!(self, p => p.push_all(buf))
    }
    fn resolve(&mut self) {
        t!(self, p => p.resolve())
    }
    fn resolve_zero(&mut self) -> usize {
        t!(self, p => p.resolve_zero())
    }
}

/// A library value of some universe type
pub trait Obj {
    fn value(&self) -> Value;
    fn same(&self, o: &dyn Obj) -> bool;
    fn any(&self) -> &dyn Any;
    fn debug(&self) -> String;
    fn dup(&self) -> Box<dyn Obj>;
    fn to_bytes(&self) -> Vec<u8>;
    fn encode_vec(&self) -> Vec<u8>;
    fn write_to_vec(&self, b: &mut Vec<u8>);
    fn write(&self, t: &mut AnyT) -> usize;
    fn to_bytes_full(&self) -> Vec<u8>;
    /// `encode` straight into the concrete target number `i`
    fn encode_as(&self, i: usize) -> AnyT;
    /// `write_to` the concrete target itself, not through the dispatcher
    fn write_direct(&self, t: &mut AnyT) -> usize;
    fn enc_len(&self) -> usize;
    fn estimate(&self) -> usize;
    fn unknown(&self) -> usize;
    /// width: 0 = u8, 1 = u16, 2 = u30; the computed prefix of the value wrapped in a length prefix
    fn prefix(&self, width: usize) -> Result<usize, WidthError>;
    fn encode_prefixed(&self, width: usize) -> Vec<u8>;
}

impl<T: Ty + Estimable + 'static> Obj for T {
    fn value(&self) -> Value {
        self.to_value()
    }
    fn same(&self, o: &dyn Obj) -> bool {
        o.any().downcast_ref::<T>().map_or(false, |o| self == o)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn debug(&self) -> String {
        format!("{self:?}")
    }
    fn dup(&self) -> Box<dyn Obj> {
        Box::new(self.clone())
    }
    fn to_bytes(&self) -> Vec<u8> {
        Encode::to_bytes(self)
    }
    fn encode_vec(&self) -> Vec<u8> {
        Encode::encode::<Vec<u8>>(self)
    }
    fn write_to_vec(&self, b: &mut Vec<u8>) {
        Encode::write_to_vec(self, b)
    }
    fn write(&self, t: &mut AnyT) -> usize {
        Encode::write_to(self, t)
    }
    fn to_bytes_full(&self) -> Vec<u8> {
        EncodeLength::to_bytes_full(self)
    }
    fn encode_as(&self, i: usize) -> AnyT {
        match i {
            0 => AnyT::V(Encode::encode(self)),
            1 => AnyT::C(Encode::encode(self)),
            2 => AnyT::S(Encode::encode(self)),
            3 => AnyT::M(Encode::encode(self)),
            _ => AnyT::H(Encode::encode(self)),
        }
    }
    fn write_direct(&self, t: &mut AnyT) -> usize {
        match t {
            AnyT::V(t) => Encode::write_to(self, t),
            AnyT::C(t) => Encode::write_to(self, t),
            AnyT::S(t) => Encode::write_to(self, t),
            AnyT::M(t) => Encode::write_to(self, t),
            AnyT::H(t) => Encode::write_to(self, t),
        }
    }
    fn enc_len(&self) -> usize {
        EncodeLength::enc_len(self)
    }
    fn estimate(&self) -> usize {
        Estimable::estimate(self)
    }
    fn unknown(&self) -> usize {
        Estimable::unknown(self)
    }
    fn prefix(&self, width: usize) -> Result<usize, WidthError> {
        match width {
            0 => Dynamic::<u8, T>::new(self.clone()).length_prefix().map(|x| x as usize),
            1 => Dynamic::<u16, T>::new(self.clone()).length_prefix().map(|x| x as usize),
            _ => Dynamic::<u30, T>::new(self.clone()).length_prefix().map(|x| x.into()),
        }
    }
    fn encode_prefixed(&self, width: usize) -> Vec<u8> {
        let mut t = AnyT::V(vec![]);
        match width {
            0 => Dynamic::<u8, T>::new(self.clone()).write_to(&mut t),
            1 => Dynamic::<u16, T>::new(self.clone()).write_to(&mut t),
            _ => Dynamic::<u30, T>::new(self.clone()).write_to(&mut t),
        };
        t.content().unwrap()
    }
}

pub type DecodeOutcome = Result<Box<dyn Obj>, tedium::conv::error::DecodeError>;

pub struct TyOps {
    pub name: String,
    pub schema: Schema,
    pub known: Option<usize>,
    pub make: fn(&Value) -> Box<dyn Obj>,
    pub parse: for<'a> fn(&mut AnyP<'a>) -> ParseResult<Box<dyn Obj>>,
    pub try_decode: fn(Vec<u8>) -> DecodeOutcome,
}

impl TyOps {
    pub fn of<T: Ty + Estimable + 'static>() -> TyOps {
        fn make<T: Ty + Estimable + 'static>(v: &Value) -> Box<dyn Obj> {
            Box::new(T::from_value(v))
        }
        fn parse<T: Ty + Estimable + 'static>(p: &mut AnyP<'_>) -> ParseResult<Box<dyn Obj>> {
            Ok(Box::new(T::parse(p)?))
        }
        fn try_decode<T: Ty + Estimable + 'static>(b: Vec<u8>) -> DecodeOutcome {
            Ok(Box::new(T::try_decode::<_, ByteParser>(b)?))
        }
        TyOps {
            name: name::<T>(),
            schema: T::schema(),
            known: T::KNOWN,
            make: make::<T>,
            parse: parse::<T>,
            try_decode: try_decode::<T>,
        }
    }
}

/// Every type of the universe.
pub fn universe() -> Vec<TyOps> {
    let mut v = vec![];
    macro_rules! visit {
        ($t:ty) => {
            v.push(TyOps::of::<$t>());
        };
    }
    crate::for_universe!(visit);
    v
}
