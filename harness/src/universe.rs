//! The type universe the codec monitors run over: primitives, every wrapper,
//! and compositions of them, including derived records and tagged unions.

use tedium::*;

// ------------------------------------------------------------- enumerations
tedium::cstyle!(ESparse8, u8, { Two = 2, Three = 3, Five = 5, Seven = 7, Top = 255 });
ty_cstyle!(ESparse8, 1, { Two = 2, Three = 3, Five = 5, Seven = 7, Top = 255 });
tedium::cstyle!(EUnordered16, u16, { C = 0x0300, A = 0x0001, B = 0x0100, Z = 0xffff, Zero = 0 });
ty_cstyle!(EUnordered16, 2, { C = 0x0300, A = 0x0001, B = 0x0100, Z = 0xffff, Zero = 0 });
tedium::cstyle!(EWide32, u32, { Unit = 0, Big = 0x3fffffff, Mid = 0x00010000 });
ty_cstyle!(EWide32, 4, { Unit = 0, Big = 0x3fffffff, Mid = 0x00010000 });
tedium::cstyle!(ESingle, u8, { Only = 7 });
ty_cstyle!(ESingle, 1, { Only = 7 });

// wide tags whose declared values would all fit a narrower width
tedium::cstyle!(ELow16, u16, { Nil = 0, One = 1, Last = 0xff });
ty_cstyle!(ELow16, 2, { Nil = 0, One = 1, Last = 0xff });
tedium::cstyle!(ELow32, u32, { Three = 3, Four = 0xffff });
ty_cstyle!(ELow32, 4, { Three = 3, Four = 0xffff });
tedium::cstyle!(EZero32, u32, { Only = 0 });
ty_cstyle!(EZero32, 4, { Only = 0 });

// ------------------------------------------------------------------ records
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct RFix {
    pub a: u8,
    pub b: i16,
    pub c: bool,
    pub d: FixedBytes<3>,
}
ty_struct!(RFix { a: u8, b: i16, c: bool, d: FixedBytes<3> });

#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
pub struct RFixL {
    pub x: i64,
    pub y: RFixInner,
    pub z: u30,
}
ty_struct!(RFixL { x: i64, y: RFixInner, z: u30 });

#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
pub struct RFixInner(pub ESparse8, pub FixedBytes<5>);
ty_struct!(RFixInner(0: ESparse8, 1: FixedBytes<5>));

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct RVar {
    pub n: N,
    pub s: Dynamic<u30, String>,
    pub z: Z,
    pub o: Option<u16>,
}
ty_struct!(RVar { n: N, s: Dynamic<u30, String>, z: Z, o: Option<u16> });

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct RTuple(pub u32, pub Dynamic<u16, Bytes>, pub i31);
ty_struct!(RTuple(0: u32, 1: Dynamic<u16, Bytes>, 2: i31));

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct RUnit;
ty_struct!(RUnit);

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct RGreedy {
    pub head: u16,
    pub tail: Sequence<RFix>,
}
ty_struct!(RGreedy { head: u16, tail: Sequence<RFix> });

/// reserve-delimited field followed by exactly the reserved bytes
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct RReserve {
    pub body: VPadded<Sequence<u16>, 6>,
    pub sig: FixedBytes<4>,
    pub end: u16,
}
ty_struct!(RReserve { body: VPadded<Sequence<u16>, 6>, sig: FixedBytes<4>, end: u16 });
/// wide records of statically known length
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct RWide {
    pub a: FixedBytes<200>,
    pub b: u16,
    pub c: FixedBytes<100>,
    pub d: Padded<u8, 300>,
}
ty_struct!(RWide { a: FixedBytes<200>, b: u16, c: FixedBytes<100>, d: Padded<u8, 300> });
/// reserves wider than a byte can count
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct RWideReserve {
    pub body: VPadded<Bytes, 300>,
    pub sig: FixedBytes<300>,
}
ty_struct!(RWideReserve { body: VPadded<Bytes, 300>, sig: FixedBytes<300> });
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct RReserve256 {
    pub body: VPadded<Sequence<u16>, 256>,
    pub sig: FixedBytes<255>,
    pub end: u8,
}
ty_struct!(RReserve256 { body: VPadded<Sequence<u16>, 256>, sig: FixedBytes<255>, end: u8 });

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct RNested {
    pub a: Dynamic<u8, RVar>,
    pub b: Dynamic<u16, Dynamic<u8, RReserve>>,
    pub c: FixSeq<Dynamic<u8, String>, 3>,
}
ty_struct!(RNested { a: Dynamic<u8, RVar>, b: Dynamic<u16, Dynamic<u8, RReserve>>, c: FixSeq<Dynamic<u8, String>, 3> });

// ------------------------------------------------------------------- unions
tedium::data!(DMixed, u8, dmixed, {
    0 => Nothing (),
    1 => Small (pub u8),
    2 => Pair (pub u16, pub i8),
    9 => Named { pub x: Dynamic<u8, String>, pub y: N },
    200 => Deep (pub Option<Dynamic<u30, Bytes>>),
});
use dmixed::*;
mod dmixed_ty {
    use super::*;
    ty_struct!(Nothing);
    ty_struct!(Small(0: u8));
    ty_struct!(Pair(0: u16, 1: i8));
    ty_struct!(Named { x: Dynamic<u8, String>, y: N });
    ty_struct!(Deep(0: Option<Dynamic<u30, Bytes>>));
}
ty_data!(DMixed, dmixed, 1, { 0 => Nothing, 1 => Small, 2 => Pair, 9 => Named, 200 => Deep });

tedium::data!(DFat, u32, dfat, {
    0x80 => Big (pub FixedBytes<300>, pub u8),
    0x10000 => Long { pub head: FixedBytes<257>, pub tail: Dynamic<u16, Bytes> },
    0xffffffff => Far (pub Padded<u64, 260>),
});
mod dfat_ty {
    use super::*;
    use dfat::*;
    ty_struct!(Big(0: FixedBytes<300>, 1: u8));
    ty_struct!(Long { head: FixedBytes<257>, tail: Dynamic<u16, Bytes> });
    ty_struct!(Far(0: Padded<u64, 260>));
}
ty_data!(DFat, dfat, 4, { 0x80 => Big, 0x10000 => Long, 0xffffffff => Far });

tedium::data!(DWide, u16, dwide, {
    0x0100 => WA (pub u30),
    0x0001 => WB { pub p: Dynamic<u16, Sequence<u8>> },
    0xfffe => WC (),
});
mod dwide_ty {
    use super::*;
    use dwide::*;
    ty_struct!(WA(0: u30));
    ty_struct!(WB { p: Dynamic<u16, Sequence<u8>> });
    ty_struct!(WC);
}
ty_data!(DWide, dwide, 2, { 0x0100 => WA, 0x0001 => WB, 0xfffe => WC });

// recursion through a box
tedium::data!(Tree, u8, tree, {
    0 => Leaf (pub i16),
    1 => Node (pub AutoBox<Tree>, pub AutoBox<Tree>),
    2 => Many (pub Dynamic<u30, Sequence<Tree>>),
});
mod tree_ty {
    use super::*;
    use crate::model::{Schema, Value};
    use crate::ty::Ty;
    use tree::*;
    ty_struct!(Leaf(0: i16));
    fn lazy() -> Schema {
        Schema::Lazy(<Tree as Ty>::schema)
    }
    impl Ty for Node {
        fn schema() -> Schema {
            Schema::Struct(vec![lazy(), lazy()])
        }
        fn to_value(&self) -> Value {
            Value::Struct(vec![self.0.to_value(), self.1.to_value()])
        }
        fn from_value(v: &Value) -> Self {
            let Value::Struct(xs) = v else { panic!() };
            Node(AutoBox::new(Tree::from_value(&xs[0])), AutoBox::new(Tree::from_value(&xs[1])))
        }
    }
    impl Ty for Many {
        fn schema() -> Schema {
            Schema::Struct(vec![Schema::Dyn(crate::model::Pref::P30, Box::new(Schema::Seq(Box::new(lazy()))))])
        }
        fn to_value(&self) -> Value {
            Value::Struct(vec![self.0.to_value()])
        }
        fn from_value(v: &Value) -> Self {
            let Value::Struct(xs) = v else { panic!() };
            Many(Dynamic::<u30, Sequence<Tree>>::from_value(&xs[0]))
        }
    }
}
ty_data!(Tree, tree, 1, { 0 => Leaf, 1 => Node, 2 => Many });

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct RBig {
    pub kind: ESparse8,
    pub body: Dynamic<u30, Sequence<Dynamic<u16, DMixed>>>,
    pub memo: Padded<Option<()>, 2>,
    pub wide: EUnordered16,
    pub f: f64,
    pub r: RangedInt<u8, 5, 250>,
    pub opt: Option<Dynamic<u8, Sequence<N>>>,
    pub rest: Nullable<Dynamic<u8, Bytes>>,
}
ty_struct!(RBig {
    kind: ESparse8,
    body: Dynamic<u30, Sequence<Dynamic<u16, DMixed>>>,
    memo: Padded<Option<()>, 2>,
    wide: EUnordered16,
    f: f64,
    r: RangedInt<u8, 5, 250>,
    opt: Option<Dynamic<u8, Sequence<N>>>,
    rest: Nullable<Dynamic<u8, Bytes>>
});

pub type FUnit = RangedF64!(-1.0, 1.0);
pub type FPos = RangedF64!(0.0, f64::INFINITY);
pub type FPoint = RangedF64!(2.5, 2.5);
pub type FFinite = RangedF64!(-f64::MAX, f64::MAX);
pub type FTiny = RangedF64!(5e-324, f64::MAX);
pub type FNeg = RangedF64!(f64::NEG_INFINITY, -0.0);

// codecs written by hand, as a user may
/// occupies memory, but no bytes on the wire
#[derive(Debug, Clone, PartialEq)]
pub struct UNote(pub u8);
impl Encode for UNote {
    fn write_to<U: Target>(&self, _: &mut U) -> usize {
        0
    }
}
impl Decode for UNote {
    fn parse<P: Parser>(_: &mut P) -> ParseResult<Self> {
        Ok(UNote(7))
    }
}
impl Estimable for UNote {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        0
    }
}
/// three bytes, most significant first
#[derive(Debug, Clone, PartialEq)]
pub struct U24(pub u32);
impl Encode for U24 {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        let [_, a, b, c] = self.0.to_be_bytes();
        buf.push_one(a) + buf.push_many([b]) + buf.push_all(&[c])
    }
}
impl Decode for U24 {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        let b = p.consume(3)?;
        Ok(U24(u32::from_be_bytes([0, b[0], b[1], b[2]])))
    }
}
impl tedium::conv::len::FixedLength for U24 {
    const LEN: usize = 3;
}
/// a count and that many bytes of text, in a window of its own
#[derive(Debug, Clone, PartialEq)]
pub struct UText(pub String);
impl Encode for UText {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        let n = u8::try_from(self.0.len()).unwrap();
        let k = n.write_to(buf) + buf.push_all(self.0.as_bytes());
        k + tedium::resolve_zero!(buf)
    }
}
impl Decode for UText {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        let n = u8::parse(p)?;
        p.set_fit(n as usize)?;
        let s = String::parse(p)?;
        p.enforce_target()?;
        Ok(UText(s))
    }
}
impl Estimable for UText {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        1 + self.0.len()
    }
}
mod user_ty {
    use super::*;
    use crate::model::{Pref, Schema, Value};
    use crate::ty::Ty;
    impl Ty for UNote {
        fn schema() -> Schema {
            Schema::Unit
        }
        fn to_value(&self) -> Value {
            Value::Unit
        }
        fn from_value(_: &Value) -> Self {
            UNote(7)
        }
    }
    impl Ty for U24 {
        fn schema() -> Schema {
            Schema::Int(3, false)
        }
        fn to_value(&self) -> Value {
            Value::Int(self.0 as i128)
        }
        fn from_value(v: &Value) -> Self {
            match v {
                Value::Int(x) => U24(*x as u32),
                _ => panic!(),
            }
        }
    }
    impl Ty for UText {
        fn schema() -> Schema {
            Schema::Dyn(Pref::P8, Box::new(Schema::Str))
        }
        fn to_value(&self) -> Value {
            Value::Bytes(self.0.clone().into_bytes())
        }
        fn from_value(v: &Value) -> Self {
            match v {
                Value::Bytes(b) => UText(String::from_utf8(b.clone()).unwrap()),
                _ => panic!(),
            }
        }
    }
}
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct RUser {
    pub a: UNote,
    pub b: U24,
    pub c: UText,
    pub d: AutoBox<UNote>,
    pub e: Sequence<U24>,
}
ty_struct!(RUser { a: UNote, b: U24, c: UText, d: AutoBox<UNote>, e: Sequence<U24> });
#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
pub struct RUserFix(pub U24, pub FixedBytes<2>);
ty_struct!(RUserFix(0: U24, 1: FixedBytes<2>));

/// Calls `$m!(T)` for every type of the universe, in chunks so that one
/// monomorphised visitor function per chunk stays small.
#[macro_export]
macro_rules! for_universe {
    ($m:ident) => {{
        use tedium::*;
        use $crate::universe::*;
        // primitives
        $m!(()); $m!(bool); $m!(u8); $m!(i8); $m!(u16); $m!(i16); $m!(u32); $m!(i32); $m!(u64); $m!(i64); $m!(f64);
        // ranged
        $m!(u30); $m!(i31);
        $m!(RangedInt<u8, 0, 100>); $m!(RangedInt<u8, 5, 250>); $m!(RangedInt<i8, -100, 27>); $m!(RangedInt<u16, 1000, 1000>);
        $m!(RangedInt<i16, -32768, 32767>); $m!(RangedInt<i16, -5, -3>); $m!(RangedInt<u32, 70000, 0x3fffffff>); $m!(RangedInt<i32, 10, 20>);
        $m!(RangedInt<u16, 0, 65535>); $m!(RangedInt<u8, 1000, 1255>);
        $m!(FUnit); $m!(FPos); $m!(FPoint); $m!(FFinite); $m!(FTiny); $m!(FNeg);
        $m!(RangedInt<u32, 0, 0x3ffffffe>); $m!(RangedInt<i32, -0x40000000, 0x3fffffff>); $m!(RangedInt<u8, 0, 0>); $m!(RangedInt<i8, -128, -1>);
        // big integers
        $m!(N); $m!(Z);
        // text and bytes
        $m!(String); $m!(Vec<u8>); $m!(Bytes);
        $m!(FixedBytes<0>); $m!(FixedBytes<1>); $m!(FixedBytes<20>); $m!(FixedBytes<33>); $m!(FixedBytes<64>); $m!(FixedBytes<257>); $m!(FixedString<4>);
        // optional / nullable / padded
        $m!(Option<()>); $m!(Option<u8>); $m!(Option<Option<i32>>); $m!(Option<N>); $m!(Option<Dynamic<u8, String>>);
        $m!(Nullable<u8>); $m!(Nullable<Z>); $m!(Nullable<Dynamic<u16, Bytes>>);
        $m!(Padded<u8, 3>); $m!(Padded<i64, 0>); $m!(Padded<Padded<u16, 1>, 2>); $m!(Option<Padded<bool, 1>>); $m!(Padded<FixedBytes<2>, 7>);
        $m!(Padded<FixedBytes<9>, 9>); $m!(Padded<u32, 4>); $m!(Padded<FixedBytes<32>, 32>); $m!(Padded<f64, 8>); $m!(Padded<u8, 300>);
        // length prefixed
        $m!(Dynamic<u8, u16>); $m!(Dynamic<u30, u8>); $m!(Dynamic<u16, ()>);
        $m!(Dynamic<u8, String>); $m!(Dynamic<u16, Bytes>); $m!(Dynamic<u30, Vec<u8>>); $m!(Dynamic<u8, N>); $m!(Dynamic<u16, Z>);
        $m!(Dynamic<u8, Dynamic<u8, String>>); $m!(Dynamic<u30, Dynamic<u16, Dynamic<u8, Bytes>>>);
        $m!(Dynamic<u8, Option<u32>>); $m!(Dynamic<u8, Nullable<u16>>); $m!(Dynamic<u16, Padded<u32, 4>>);
        $m!(Dynamic<u8, RangedInt<u16, 1000, 66000>>); $m!(Padded<Dynamic<u8, u16>, 2>);
        // reserve delimited
        $m!(VPadded<String, 0>); $m!(Dynamic<u8, VPadded<Bytes, 0>>);
        // sequences
        $m!(Sequence<u8>); $m!(Sequence<i32>); $m!(Sequence<N>); $m!(Sequence<Option<u8>>); $m!(Sequence<Dynamic<u8, String>>);
        $m!(Dynamic<u30, Sequence<u16>>); $m!(Dynamic<u16, Sequence<Z>>); $m!(Dynamic<u8, Sequence<Dynamic<u8, Sequence<u8>>>>);
        $m!(FixSeq<u8, 4>); $m!(FixSeq<u16, 0>); $m!(FixSeq<N, 3>); $m!(FixSeq<Option<u8>, 2>); $m!(FixSeq<Dynamic<u8, Bytes>, 2>); $m!(Dynamic<u8, FixSeq<i16, 5>>);
        $m!(LimSeq<u8, 4>); $m!(LimSeq<Z, 3>); $m!(Dynamic<u8, LimSeq<u32, 6>>); $m!(Dynamic<u16, LimSeq<Option<u8>, 5>>); $m!(LimSeq<u16, 0>);
        $m!(LimSeq<Dynamic<u8, Bytes>, 100>); $m!(FixSeq<UText, 70>); $m!(Dynamic<u30, LimSeq<Option<u16>, 300>>); $m!(LimSeq<u16, 65535>);
        $m!(Sequence<FixSeq<u8, 2>>); $m!(Sequence<Dynamic<u8, LimSeq<u8, 2>>>);
        // boxed
        $m!(AutoBox<u32>); $m!(AutoBox<Dynamic<u8, String>>); $m!(Option<AutoBox<N>>);
        // wide in memory, wide on the wire
        $m!(Option<FixedBytes<300>>); $m!(Nullable<FixedBytes<300>>); $m!(Dynamic<u16, Option<FixedBytes<257>>>); $m!(Option<RWideReserve>);
        $m!(Sequence<FixedBytes<300>>); $m!(FixSeq<FixedBytes<257>, 2>); $m!(Dynamic<u30, LimSeq<FixedBytes<300>, 3>>); $m!(AutoBox<FixedBytes<520>>);
        $m!(Option<Padded<FixedBytes<300>, 300>>); $m!(RWide); $m!(Option<RWide>); $m!(Sequence<RWide>); $m!(DFat); $m!(Option<DFat>); $m!(Dynamic<u16, DFat>);
        // enumerations, records, unions
        $m!(ESparse8); $m!(EUnordered16); $m!(EWide32); $m!(ESingle); $m!(ELow16); $m!(ELow32); $m!(EZero32); $m!(Dynamic<u8, FixSeq<ELow16, 2>>); $m!(Option<ESparse8>); $m!(Dynamic<u8, EUnordered16>); $m!(Sequence<EWide32>);
        $m!(RFix); $m!(RFixL); $m!(FixSeq<RFixL, 3>); $m!(RVar); $m!(RTuple); $m!(RUnit); $m!(RGreedy); $m!(RReserve); $m!(RNested);
        $m!(Dynamic<u16, RGreedy>); $m!(Dynamic<u8, RReserve>); $m!(RWideReserve); $m!(Dynamic<u16, RWideReserve>); $m!(RReserve256); $m!(Sequence<RFix>); $m!(Option<RTuple>); $m!(FixSeq<RFix, 2>);
        $m!(DMixed); $m!(DWide); $m!(Sequence<DMixed>); $m!(Dynamic<u8, DWide>); $m!(Tree); $m!(Dynamic<u30, Tree>);
        $m!(RBig); $m!(Dynamic<u30, RBig>);
        // around codecs written by hand
        $m!(UNote); $m!(AutoBox<UNote>); $m!(Option<UNote>); $m!(Dynamic<u16, UNote>); $m!(Nullable<U24>); $m!(Dynamic<u8, AutoBox<U24>>);
        $m!(U24); $m!(Sequence<U24>); $m!(FixSeq<U24, 3>); $m!(Dynamic<u8, LimSeq<U24, 4>>); $m!(Padded<U24, 1>); $m!(Option<UText>); $m!(Sequence<UText>); $m!(VPadded<UText, 0>);
        $m!(FixSeq<UText, 2>); $m!(Dynamic<u30, Dynamic<u8, UText>>); $m!(RUser); $m!(Dynamic<u8, RUser>); $m!(RUserFix); $m!(Sequence<RUserFix>);
    }};
}
