// generated by tools/gen_records.py
/// documented
#[derive(Decode, Debug, Encode, Clone, FixedLength, PartialEq)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R00();

#[derive(Decode, Clone, Debug, Encode, FixedLength, PartialEq)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R01;

/// documented
#[derive(PartialEq, Decode, Encode, Clone, Debug, Estimable)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R02 {
    pub(crate) ty: i32,
}

#[derive(FixedLength, Debug, Encode, Clone, Decode, PartialEq)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R03(u30);

#[allow(dead_code)]
#[derive(PartialEq, Encode, Decode, Estimable, Debug, Clone)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R04 {
    pub fixed: Nullable<u16>,
}

#[allow(dead_code)]
#[derive(Decode, Encode, Clone, Estimable, PartialEq, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct P(pub(crate) FixSeq<i16, 3>);

#[derive(PartialEq, Clone, Debug, Decode, FixedLength, Encode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R06(pub(crate) RangedInt<u16, 1000, 1010>, ());

#[derive(Estimable, Debug, Decode, Encode, PartialEq, Clone)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R07(pub FixedBytes<0>, pub(crate) Z);

#[derive(FixedLength, Clone, PartialEq, Debug, Encode, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct U(R03, FixedBytes<4>);

#[derive(Debug, Encode, Decode, Clone, Estimable, PartialEq)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R09 {
    /// a field
    pub(crate) result: Dynamic<u8, LimSeq<R02, 2>>,
    pub(crate) total: FixedBytes<1>,
    pub(crate) estimate: U,
}

/// documented
#[derive(PartialEq, Clone, FixedLength, Debug, Decode, Encode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R10(R01, FixedString<3>, pub R01);

/// documented
#[derive(Decode, PartialEq, Estimable, Debug, Clone, Encode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct T(Padded<RangedInt<i16, -300, 300>, 4>, pub(crate) Dynamic<u16, String>, pub Dynamic<u16, Sequence<u8>>, pub(crate) i16);

#[derive(Debug, Estimable, PartialEq, Encode, Decode, Clone)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R12(i16, EUnordered16, pub(crate) DWide, pub(crate) P, pub(crate) U);

#[derive(Encode, Decode, Debug, Clone, PartialEq, Estimable)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R13(pub(crate) Padded<u8, 3>, pub Padded<u30, 3>, AutoBox<FixedBytes<4>>, Dynamic<u16, Sequence<Option<DWide>>>, pub(crate) P, pub(crate) T);

#[allow(dead_code)]
#[derive(Clone, Debug, Encode, PartialEq, Estimable, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R14 {
    len: Dynamic<u30, Padded<u16, 1>>,
    pub(crate) encode: R12,
    /// a field
    pub data: ESparse8,
    pub phantom: u16,
    pub i: FixSeq<Option<()>, 3>,
    /// a field
    option: Dynamic<u8, LimSeq<Option<RangedInt<u16, 1000, 1010>>, 0>>,
    pub(crate) size: EWide32,
}

#[allow(dead_code)]
#[derive(Estimable, Debug, Decode, PartialEq, Clone, Encode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R15 {
    pub __pad: R10,
    r#struct: Option<u8>,
    /// a field
    pub d: Option<N>,
    pub _reserved: AutoBox<T>,
    this: FixedBytes<1>,
    /// a field
    _p: FixedString<3>,
    /// a field
    other: P,
    pub unused: LimSeq<u8, 3>,
}

/// documented
#[derive(PartialEq, Decode, Clone, Debug, Encode, Estimable)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R16 {
    /// a field
    pub(crate) target: Dynamic<u16, Sequence<i31>>,
    pub e: AutoBox<AutoBox<EWide32>>,
    pub(crate) __: FixSeq<Dynamic<u8, String>, 2>,
    /// a field
    pub(crate) sum: Dynamic<u8, R00>,
    pub(crate) x0: Option<Option<()>>,
    pub(crate) value: f64,
    /// a field
    pub(crate) tgt: FixedBytes<4>,
    /// a field
    none: FixedString<3>,
    some: Nullable<Dynamic<u8, String>>,
}

#[allow(dead_code)]
#[derive(Estimable, Encode, PartialEq, Clone, Decode, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R17(pub(crate) i64, pub(crate) R01, pub Dynamic<u8, LimSeq<FixSeq<i8, 1>, 2>>, N, pub FixSeq<f64, 2>, pub f64, Dynamic<u30, Dynamic<u8, Nullable<u16>>>, pub U, R03, pub(crate) Nullable<u16>);

#[allow(dead_code)]
#[derive(PartialEq, Encode, Debug, Clone, Decode, Estimable)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R18 {
    bytes: u30,
    /// a field
    pub ret: N,
    pub(crate) n: Padded<FixedBytes<1>, 4>,
    /// a field
    pos0: Dynamic<u16, Sequence<FixedString<3>>>,
    /// a field
    b: R10,
    field: U,
    pub(crate) version: P,
    /// a field
    c: Dynamic<u16, Sequence<U>>,
    pub(crate) known: Option<U>,
    /// a field
    pub x: i32,
    pub pos1: Option<Option<()>>,
}

#[derive(Encode, Debug, Clone, PartialEq, Estimable, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R19 {
    /// a field
    pub(crate) max: Z,
    pub u: FixSeq<R06, 2>,
    pub output: i16,
    padding: Dynamic<u8, Sequence<u16>>,
    id: Dynamic<u8, String>,
    pub(crate) acc: Z,
    pub(crate) min: Option<N>,
    pub r#match: FixSeq<U, 1>,
    pub(crate) p: R01,
    r#fn: u8,
    pub self_: FixSeq<R14, 1>,
    pub(crate) buf: FixSeq<Dynamic<u30, Vec<u8>>, 3>,
}

#[derive(PartialEq, Clone, Debug, FixedLength, Encode, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R20(pub FixedString<3>, u64, pub R01, pub(crate) FixedBytes<0>, pub(crate) R00, pub ESparse8, pub(crate) R03, pub(crate) i64, i16, R01, pub u32, pub u32, R10);

#[derive(Clone, FixedLength, Decode, Encode, Debug, PartialEq)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R21 {
    pub(crate) reserved: ESparse8,
    unknown: bool,
    pub _padding: R00,
    pub(crate) _0: EUnordered16,
    pub(crate) x1: R01,
    pub r#async: R10,
    pub(crate) __private: u30,
    pub(crate) tedium: i16,
    pub(crate) hash: R06,
    parser: R10,
    pub _1: R06,
    pub(crate) dummy: bool,
    _x: u30,
    /// a field
    pub parse: RangedInt<i16, -300, 300>,
}

#[derive(Decode, Clone, FixedLength, PartialEq, Encode, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R22 {
    pub res: R03,
    count: U,
    pub marker: f64,
    pub tag: EWide32,
    pub write_to: EWide32,
    UPPER: RangedInt<i16, -300, 300>,
    pub(crate) r#use: R00,
    buffer: R03,
    ___0: FixedString<3>,
    /// a field
    pub(crate) f: RangedInt<i16, -300, 300>,
    fields: R21,
    ignored: ESparse8,
    skip: R00,
    /// a field
    pub(crate) resolve_zero: R10,
    pub(crate) _buf: R21,
    pub(crate) name: R21,
    /// a field
    pub decode: u32,
}

/// documented
#[derive(Decode, Estimable, Encode, Debug, PartialEq, Clone)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R23(Dynamic<u16, VPadded<Bytes, 0>>, R06, u16, pub Option<u64>, pub(crate) u30, pub(crate) AutoBox<FixSeq<u16, 1>>, pub i64, pub(crate) Dynamic<u16, Dynamic<u16, Bytes>>, pub(crate) RangedInt<u16, 1000, 1010>, Dynamic<u16, Sequence<i32>>, ESparse8, ESparse8, R00, pub AutoBox<u64>, pub Dynamic<u16, Sequence<Dynamic<u16, Sequence<FixedBytes<1>>>>>, pub u8, pub(crate) Dynamic<u8, Sequence<u16>>, Dynamic<u8, LimSeq<FixedBytes<1>, 2>>, Dynamic<u30, Vec<u8>>, pub R06, Dynamic<u8, Nullable<Dynamic<u8, String>>>);

/// documented
#[derive(Encode, Clone, FixedLength, PartialEq, Decode, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R24();

#[derive(Debug, Decode, Clone, Encode, PartialEq, FixedLength)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R25();

/// documented
#[derive(Clone, Encode, FixedLength, PartialEq, Decode, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R26 {
    /// a field
    mixedCase: R24,
}

/// documented
#[derive(Decode, Clone, PartialEq, Debug, Encode, Estimable)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R27(pub(crate) String);

/// documented
#[derive(Decode, PartialEq, FixedLength, Encode, Clone, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R28(R00);

#[allow(dead_code)]
#[derive(Encode, PartialEq, Decode, Debug, Clone, Estimable)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R29(pub(crate) FixSeq<Dynamic<u16, R15>, 3>);

/// documented
#[derive(Encode, Decode, Debug, PartialEq, Clone, Estimable)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R30 {
    a: Dynamic<u8, LimSeq<Option<()>, 0>>,
    /// a field
    pub(crate) X: FixSeq<u8, 3>,
}

#[derive(Decode, Encode, Estimable, PartialEq, Clone, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R31(RangedInt<i16, -300, 300>, AutoBox<R23>);

/// documented
#[derive(Debug, PartialEq, Clone, Encode, Estimable, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R32 {
    pub(crate) usize_: Dynamic<u8, Nullable<Dynamic<u8, String>>>,
    out: Sequence<N>,
}

#[derive(Decode, Encode, Estimable, PartialEq, Clone, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R33 {
    /// a field
    pub(crate) r#type: Option<u8>,
    /// a field
    pub(crate) std: Dynamic<u8, LimSeq<Dynamic<u16, Sequence<Dynamic<u30, VPadded<Bytes, 0>>>>, 2>>,
    pub(crate) naïve: i8,
}

#[derive(Debug, Clone, Encode, Decode, Estimable, PartialEq)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R34 {
    pub(crate) none: (),
    acc: FixedBytes<1>,
    pub(crate) _padding: i64,
}

/// documented
#[derive(Debug, FixedLength, Encode, PartialEq, Decode, Clone)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R35(pub FixedBytes<4>, R06, pub R06, pub i32);

/// documented
#[derive(PartialEq, Clone, Decode, Encode, Debug, FixedLength)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R36 {
    pub resolve_zero: R22,
    /// a field
    pub known: i32,
    /// a field
    decode: EUnordered16,
    pub(crate) data: f64,
    pub(crate) a: FixedBytes<4>,
}

#[allow(dead_code)]
#[derive(FixedLength, PartialEq, Debug, Encode, Decode, Clone)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R37 {
    _reserved: R21,
    write_to: i32,
    d: i32,
    /// a field
    tag: FUnit,
    pub(crate) c: U,
    pub(crate) r#fn: i31,
}

#[derive(Encode, Clone, PartialEq, Estimable, Decode, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R38 {
    /// a field
    pub(crate) size: Option<()>,
    self_: FixSeq<Padded<i31, 1>, 1>,
    pub(crate) fixed: FixedBytes<4>,
    pub this: Padded<RangedInt<i16, -300, 300>, 2>,
    _p: N,
    pub(crate) result: Option<Dynamic<u16, Sequence<DWide>>>,
    pub(crate) p: Option<u8>,
}

#[derive(Estimable, Debug, Clone, Encode, PartialEq, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R39(pub(crate) Padded<u30, 4>, FixedString<3>, pub Dynamic<u8, LimSeq<RangedInt<u16, 1000, 1010>, 3>>, pub Option<Dynamic<u30, R26>>, Z, pub Dynamic<u16, Vec<u8>>, Option<Option<u8>>, pub(crate) Nullable<u16>);

/// documented
#[derive(Estimable, Debug, Encode, PartialEq, Decode, Clone)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R40(pub(crate) Padded<i64, 2>, R37, pub(crate) RangedInt<u16, 1000, 1010>, R18, pub(crate) i32, Dynamic<u8, LimSeq<u8, 3>>, pub(crate) Dynamic<u16, Option<DMixed>>, pub(crate) AutoBox<P>, pub bool);

#[allow(dead_code)]
#[derive(Estimable, Debug, PartialEq, Clone, Decode, Encode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R41 {
    pub(crate) r#match: i32,
    pub tgt: Option<Dynamic<u8, String>>,
    pub(crate) r#use: AutoBox<Dynamic<u8, f64>>,
    pub(crate) name: Dynamic<u16, Sequence<FUnit>>,
    /// a field
    pub b: Dynamic<u8, LimSeq<FixedBytes<4>, 3>>,
    /// a field
    pub(crate) mixedCase: R09,
    min: Option<Dynamic<u16, FixedBytes<0>>>,
    /// a field
    f: N,
    pub(crate) fields: Dynamic<u8, Nullable<Dynamic<u8, String>>>,
    pub(crate) target: VPadded<Bytes, 0>,
}

#[derive(Clone, Encode, Decode, Debug, PartialEq, Estimable)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R42(pub RangedInt<u8, 3, 200>, pub(crate) FixSeq<AutoBox<u30>, 3>, pub FixedString<3>, pub Padded<i31, 4>, Dynamic<u8, Nullable<Dynamic<u8, String>>>, pub(crate) u64, pub u64, pub(crate) Padded<u8, 1>, pub Padded<FixedBytes<1>, 4>, pub Dynamic<u16, Sequence<Dynamic<u16, Sequence<u32>>>>, pub(crate) String);

#[allow(dead_code)]
#[derive(Estimable, Debug, Encode, Clone, Decode, PartialEq)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R43 {
    /// a field
    pub(crate) len: FixedBytes<0>,
    pub encode: Dynamic<u8, Sequence<N>>,
    /// a field
    pub(crate) ___0: Dynamic<u8, LimSeq<FixedBytes<4>, 0>>,
    /// a field
    pub unknown: Dynamic<u8, LimSeq<Option<ESparse8>, 0>>,
    pub u: FixedBytes<1>,
    /// a field
    pub(crate) _0: u32,
    pub other: Option<()>,
    pub(crate) _buf: FixedBytes<0>,
    count: Dynamic<u8, LimSeq<DMixed, 3>>,
    /// a field
    _x: Dynamic<u16, LimSeq<u8, 3>>,
    pub(crate) buf: u30,
    ret: R34,
}

/// documented
#[derive(Encode, Debug, PartialEq, Clone, Decode, Estimable)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R44 {
    pub(crate) X: R06,
    pub(crate) estimate: f64,
    option: Option<Dynamic<u16, Sequence<u30>>>,
    /// a field
    pub id: Dynamic<u8, LimSeq<Padded<i64, 3>, 1>>,
    pub unused: Option<Dynamic<u8, EUnordered16>>,
    pub(crate) UPPER: Dynamic<u8, String>,
    pub some: Dynamic<u8, String>,
    pub version: i16,
    pub padding: Option<i31>,
    pub(crate) total: Dynamic<u16, String>,
    pub(crate) r#async: AutoBox<RangedInt<i16, -300, 300>>,
    /// a field
    pub(crate) i: RangedInt<u8, 3, 200>,
    /// a field
    pub max: i32,
}

#[allow(dead_code)]
#[derive(Estimable, Encode, PartialEq, Clone, Decode, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R45(Dynamic<u8, Sequence<u16>>, Option<Dynamic<u8, ESparse8>>, pub(crate) ESparse8, pub i16, pub(crate) u16, pub(crate) FixedString<3>, RangedInt<u8, 3, 200>, Padded<FixedBytes<1>, 1>, pub(crate) AutoBox<Dynamic<u8, LimSeq<EWide32, 0>>>, pub(crate) R01, pub Dynamic<u16, R14>, Option<Padded<RangedInt<i16, -300, 300>, 3>>, Dynamic<u8, R09>, pub(crate) Dynamic<u16, Sequence<Option<Option<N>>>>);

/// documented
#[derive(Clone, PartialEq, Debug, FixedLength, Encode, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R46 {
    pub parse: EUnordered16,
    pub(crate) usize_: R35,
    pub pos0: R20,
    res: RangedInt<u16, 1000, 1010>,
    /// a field
    pub(crate) ignored: u32,
    field: RangedInt<u8, 3, 200>,
    pub bytes: R06,
    __pad: R06,
    dummy: R00,
    pub(crate) x0: R28,
    pos1: R35,
    std: R00,
    pub(crate) reserved: R35,
    pub(crate) parser: R28,
    pub(crate) hash: R00,
    naïve: R26,
    pub r#type: R36,
}

#[derive(Clone, PartialEq, Encode, Decode, Estimable, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R47 {
    output: Dynamic<u8, Sequence<N>>,
    pub(crate) tedium: P,
    /// a field
    pub __: R43,
    pub(crate) buffer: u30,
    /// a field
    skip: Dynamic<u8, DMixed>,
    pub(crate) out: i8,
    pub(crate) r#struct: i64,
    /// a field
    pub(crate) x1: u16,
    pub x: Dynamic<u16, Sequence<Option<N>>>,
    pub _1: i8,
    e: Dynamic<u8, LimSeq<FixedString<3>, 2>>,
    pub __private: Dynamic<u30, Padded<FixedBytes<0>, 4>>,
    pub(crate) value: FixedBytes<0>,
    /// a field
    phantom: Dynamic<u8, LimSeq<EWide32, 3>>,
    pub n: R12,
    pub(crate) sum: FixedBytes<4>,
    pub(crate) ty: RangedInt<u8, 3, 200>,
    marker: RangedInt<u8, 3, 200>,
    pub(crate) size: ESparse8,
    pub(crate) __pad: R43,
    pub some: Dynamic<u30, VPadded<Bytes, 0>>,
}

#[derive(Encode, Debug, PartialEq, Clone, Decode, Estimable)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R48;

#[derive(Decode, FixedLength, PartialEq, Clone, Debug, Encode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R49 {
}

#[derive(Estimable, Clone, Encode, PartialEq, Decode, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R50 {
    pub buf: Option<FixedBytes<1>>,
}

#[derive(Clone, Encode, Decode, PartialEq, Debug, Estimable)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R51(pub P);

/// documented
#[derive(PartialEq, Debug, Estimable, Clone, Encode, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R52(pub(crate) R22);

#[derive(Estimable, Clone, Decode, Encode, PartialEq, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R53 {
    pub(crate) tedium: Sequence<N>,
}

#[derive(Debug, Encode, Clone, Decode, PartialEq, FixedLength)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R54(pub R06, pub(crate) R06);

/// documented
#[derive(PartialEq, Clone, Estimable, Debug, Encode, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R55 {
    /// a field
    pub fixed: DWide,
    pub(crate) max: AutoBox<Dynamic<u8, LimSeq<u8, 3>>>,
}

/// documented
#[derive(Decode, Estimable, Encode, Clone, PartialEq, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R56(pub Dynamic<u30, R18>, pub(crate) DMixed);

#[derive(PartialEq, Estimable, Debug, Encode, Decode, Clone)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R57(Dynamic<u8, Dynamic<u16, Sequence<Option<RangedInt<u16, 1000, 1010>>>>>, R10, pub(crate) String);

#[allow(dead_code)]
#[derive(Clone, Encode, Estimable, Debug, PartialEq, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R58(Dynamic<u30, Bytes>, pub(crate) Option<Dynamic<u8, LimSeq<i32, 0>>>, pub Nullable<u16>);

#[allow(dead_code)]
#[derive(PartialEq, Estimable, Decode, Encode, Clone, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R59(pub(crate) Option<EUnordered16>, DWide, pub(crate) Option<R10>, pub(crate) R13);

/// documented
#[derive(Debug, Estimable, Decode, Clone, PartialEq, Encode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R60 {
    pub r#struct: Dynamic<u8, Bytes>,
    pub(crate) field: RangedInt<u16, 1000, 1010>,
    /// a field
    pub(crate) std: R33,
    /// a field
    pub dummy: Dynamic<u16, String>,
    /// a field
    pub bytes: i31,
}

#[allow(dead_code)]
#[derive(PartialEq, Decode, FixedLength, Clone, Debug, Encode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R61(R00, pub(crate) R26, pub R26, R22, RangedInt<u8, 3, 200>, R00);

#[derive(Encode, Decode, Estimable, Clone, PartialEq, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R62 {
    pub pos1: Option<i8>,
    resolve_zero: Option<Dynamic<u8, Nullable<Dynamic<u8, String>>>>,
    pub(crate) encode: Dynamic<u8, Dynamic<u8, LimSeq<DWide, 3>>>,
    pub(crate) tag: i8,
    __: Option<f64>,
    pub(crate) result: RangedInt<u16, 1000, 1010>,
    /// a field
    _1: Sequence<u16>,
}

#[derive(FixedLength, Clone, Encode, PartialEq, Debug, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R63 {
    pub(crate) output: R54,
    pub hash: EWide32,
    /// a field
    r#use: R46,
    /// a field
    pub c: R49,
    pub len: u64,
    /// a field
    pub(crate) total: f64,
    pub acc: R35,
    pos0: R25,
}

#[derive(Estimable, Decode, PartialEq, Encode, Clone, Debug)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R64(pub(crate) Dynamic<u8, T>, pub Dynamic<u16, VPadded<Bytes, 0>>, pub(crate) i32, pub(crate) Dynamic<u8, Bytes>, pub(crate) FixSeq<Dynamic<u8, LimSeq<FUnit, 3>>, 3>, AutoBox<FixSeq<bool, 3>>, pub(crate) bool, pub(crate) FixSeq<AutoBox<DWide>, 3>, pub R30);

#[derive(Estimable, Encode, Debug, Decode, Clone, PartialEq)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R65(pub(crate) Option<()>, pub FixedString<3>, (), pub(crate) i64, pub Option<FUnit>, R48, Dynamic<u8, Vec<u8>>, pub FixedString<3>, pub(crate) R06, pub Dynamic<u8, Option<N>>);

/// documented
#[derive(Decode, Clone, Encode, PartialEq, Debug, Estimable)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R66 {
    pub(crate) _padding: FixSeq<R20, 3>,
    other: Dynamic<u8, R59>,
    pub fields: Dynamic<u8, R25>,
    pub(crate) known: FixSeq<RangedInt<u16, 1000, 1010>, 2>,
    /// a field
    decode: FixedBytes<4>,
    /// a field
    pub target: Option<()>,
    pub(crate) _x: f64,
    pub(crate) a: R43,
    /// a field
    pub(crate) value: Dynamic<u16, Sequence<i31>>,
    pub(crate) _0: Dynamic<u16, R40>,
    min: Dynamic<u16, Option<Option<()>>>,
}

#[derive(PartialEq, Clone, Debug, Estimable, Encode, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R67 {
    pub(crate) self_: EUnordered16,
    pub data: R56,
    pub(crate) x: FixSeq<EUnordered16, 3>,
    b: FixedBytes<0>,
    id: Dynamic<u8, LimSeq<Dynamic<u8, Sequence<N>>, 0>>,
    x0: Padded<i64, 1>,
    pub ty: bool,
    pub X: Dynamic<u8, R45>,
    /// a field
    pub(crate) ___0: R38,
    pub mixedCase: Dynamic<u16, Sequence<Dynamic<u8, LimSeq<i31, 1>>>>,
    r#match: VPadded<Bytes, 1>,
    /// a field
    n: ESparse8,
}

#[derive(Encode, Estimable, Clone, Decode, Debug, PartialEq)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R68(pub Dynamic<u8, Dynamic<u16, Sequence<Option<()>>>>, pub(crate) EWide32, Dynamic<u16, R37>, FixSeq<u8, 2>, FUnit, pub Dynamic<u8, LimSeq<Z, 3>>, pub u16, pub FUnit, Dynamic<u8, LimSeq<Dynamic<u8, LimSeq<u16, 1>>, 1>>, pub u16, pub Dynamic<u16, Dynamic<u8, Sequence<u16>>>, pub RangedInt<u8, 3, 200>, pub(crate) DWide);

#[allow(dead_code)]
#[derive(Encode, Decode, Debug, Estimable, Clone, PartialEq)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R69(FixedString<3>, Dynamic<u8, LimSeq<Dynamic<u16, Sequence<FixedString<3>>>, 0>>, Dynamic<u16, Sequence<EWide32>>, R61, pub N, Option<FixSeq<u8, 1>>, pub(crate) R51, pub Dynamic<u16, Sequence<Dynamic<u8, Sequence<N>>>>, pub R66, pub(crate) Z, pub R10, RangedInt<u8, 3, 200>, Dynamic<u16, Sequence<bool>>, pub R28);

#[allow(dead_code)]
#[derive(Estimable, Debug, Clone, PartialEq, Decode, Encode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R70 {
    __private: Option<u8>,
    /// a field
    pub(crate) naïve: R02,
    count: (),
    /// a field
    pub ignored: R06,
    pub r#async: f64,
    pub _buf: FUnit,
    tgt: Dynamic<u8, LimSeq<Dynamic<u16, Sequence<bool>>, 1>>,
    sum: Dynamic<u16, Sequence<u16>>,
    /// a field
    pub(crate) d: R06,
    parse: R68,
    pub(crate) unknown: R30,
    pub res: DMixed,
    /// a field
    pub(crate) skip: Dynamic<u8, LimSeq<Dynamic<u16, Bytes>, 0>>,
    pub unused: RangedInt<u16, 1000, 1010>,
    usize_: AutoBox<Padded<i8, 4>>,
    /// a field
    pub(crate) UPPER: R49,
    /// a field
    pub phantom: FixSeq<Dynamic<u16, Sequence<N>>, 3>,
}

#[derive(Estimable, Encode, Clone, Debug, PartialEq, Decode)]
#[allow(non_camel_case_types, non_snake_case)]
pub struct R71 {
    padding: Z,
    pub version: Option<Option<()>>,
    /// a field
    r#type: R35,
    /// a field
    pub(crate) p: FixedBytes<4>,
    pub x1: R43,
    pub(crate) write_to: Padded<i31, 0>,
    pub e: Padded<FUnit, 0>,
    /// a field
    pub _p: u32,
    /// a field
    pub none: Dynamic<u8, LimSeq<AutoBox<RangedInt<u8, 3, 200>>, 0>>,
    pub(crate) _reserved: R01,
    pub(crate) this: i32,
    pub r#fn: R36,
    pub(crate) reserved: R47,
    /// a field
    buffer: AutoBox<Dynamic<u8, LimSeq<RangedInt<i16, -300, 300>, 2>>>,
    /// a field
    pub(crate) name: u16,
    out: FUnit,
    pub(crate) u: i64,
    marker: R70,
    option: FixSeq<Padded<i32, 4>, 3>,
    pub parser: FixSeq<N, 1>,
    pub(crate) i: Dynamic<u8, LimSeq<Dynamic<u8, R54>, 1>>,
}

#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
pub struct EmptyUnitFix;

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct EmptyUnitEst;

#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
pub struct EmptyTupleFix();

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct EmptyTupleEst();

#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
pub struct EmptyBracesFix {}

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct EmptyBracesEst {}

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Wide0 {
    pub f0: FixedBytes<200>,
    pub f1: FixedBytes<100>,
}

#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
pub struct Wide1 {
    pub f0: FixedBytes<200>,
    pub f1: u16,
    pub f2: FixedBytes<100>,
}

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Wide2(pub FixedBytes<255>, pub u8);

#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
pub struct Wide3(pub FixedBytes<300>);

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Wide4(pub Padded<u16, 300>);

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Wide5 {
    pub f0: Padded<FixedBytes<257>, 513>,
}

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Wide6 {
    pub f0: u8,
    pub f1: FixedBytes<520>,
    pub f2: Dynamic<u16, Bytes>,
    pub f3: FixedBytes<300>,
}

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Wide7(pub FixedBytes<300>, pub Option<FixedBytes<300>>, pub N);

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Wide8 {
    pub f0: Padded<u8, 1030>,
    pub f1: FixSeq<u64, 40>,
    pub f2: FixSeq<FixedBytes<9>, 30>,
}

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Wide9(pub FixSeq<u32, 64>, pub i31, pub RWide);

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Many0 {
    pub _q0: bool,
    pub xe1: u32,
    pub xe2: FixedBytes<1>,
    pub aw3: RangedInt<u8, 3, 200>,
    pub zw4: u32,
    pub ze5: u16,
    pub xq6: u8,
    pub yw7: u16,
    pub bq8: Dynamic<u8, Bytes>,
    pub ce9: RangedInt<u8, 3, 200>,
    pub zw10: i8,
    pub ye11: i8,
    pub _w12: u8,
    pub xe13: i8,
    pub _q14: RangedInt<u8, 3, 200>,
    pub yq15: u8,
    pub bw16: FixedBytes<1>,
    pub aq17: Dynamic<u8, Bytes>,
    pub bw18: bool,
    pub _e19: u16,
    pub yq20: bool,
    pub bw21: FixedBytes<1>,
    pub yw22: u8,
    pub bq23: Option<u8>,
    pub yw24: N,
    pub ce25: RangedInt<u8, 3, 200>,
}

#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
pub struct Many1 {
    pub be0: RangedInt<u8, 3, 200>,
    pub _q1: bool,
    pub yw2: i8,
    pub _q3: i8,
    pub bw4: u16,
    pub ye5: u32,
    pub _w6: u16,
    pub aq7: u8,
    pub bq8: bool,
    pub cw9: FixedBytes<1>,
    pub ce10: u16,
    pub xe11: RangedInt<u8, 3, 200>,
    pub yw12: RangedInt<u8, 3, 200>,
    pub zw13: u8,
    pub yq14: u32,
    pub yw15: u16,
    pub xe16: u16,
    pub xq17: i31,
    pub zq18: u32,
    pub zq19: i31,
    pub xe20: u16,
    pub bq21: RangedInt<u8, 3, 200>,
    pub xw22: i31,
    pub yw23: FixedBytes<1>,
    pub cw24: bool,
    pub _w25: u32,
    pub xw26: i31,
    pub aq27: bool,
    pub ae28: RangedInt<u8, 3, 200>,
    pub ae29: i31,
    pub aq30: u8,
    pub xq31: u8,
    pub cq32: bool,
}

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Many2(pub i31, pub u32, pub u32, pub u8, pub Option<u8>, pub i31, pub FixedBytes<1>, pub bool, pub i31, pub N, pub u32, pub i8, pub Dynamic<u8, Bytes>, pub Option<u8>, pub u16, pub u16, pub bool, pub i31, pub bool, pub i31, pub i8, pub Dynamic<u8, Bytes>, pub Option<u8>, pub Dynamic<u8, Bytes>, pub u8, pub bool, pub RangedInt<u8, 3, 200>, pub u32, pub bool, pub u16, pub u16, pub N, pub u16, pub u8, pub bool, pub Dynamic<u8, Bytes>, pub i8, pub i31, pub u16, pub u16);

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Many3 {
    pub _e0: u8,
    pub xw1: i8,
    pub _q2: Dynamic<u8, Bytes>,
    pub ae3: FixedBytes<1>,
    pub bq4: Option<u8>,
    pub ae5: u16,
    pub _q6: u8,
    pub zq7: bool,
    pub zw8: u32,
    pub bw9: u32,
    pub zw10: FixedBytes<1>,
    pub bq11: bool,
    pub _q12: u32,
    pub ze13: u8,
    pub ze14: i8,
    pub yq15: Option<u8>,
    pub _e16: i31,
    pub aw17: RangedInt<u8, 3, 200>,
    pub _q18: Option<u8>,
    pub _w19: u32,
    pub bq20: N,
    pub xq21: u16,
    pub zq22: u16,
    pub bq23: u16,
    pub aq24: u16,
    pub aq25: u16,
    pub xe26: i31,
    pub _w27: bool,
    pub zw28: u32,
    pub be29: Option<u8>,
    pub cw30: N,
    pub xe31: N,
    pub zw32: N,
    pub xe33: Option<u8>,
    pub _q34: N,
    pub bq35: u32,
    pub ye36: u16,
    pub bw37: Option<u8>,
    pub _e38: u32,
    pub aq39: i31,
    pub _q40: FixedBytes<1>,
    pub _e41: u32,
    pub zq42: Dynamic<u8, Bytes>,
    pub _w43: bool,
    pub ye44: FixedBytes<1>,
    pub yq45: bool,
    pub bw46: i31,
    pub aw47: u16,
    pub ce48: Dynamic<u8, Bytes>,
    pub bq49: bool,
    pub aw50: bool,
    pub xe51: u8,
    pub yw52: Dynamic<u8, Bytes>,
    pub xq53: N,
    pub zq54: N,
    pub aq55: FixedBytes<1>,
    pub _q56: u32,
    pub aq57: N,
    pub _q58: FixedBytes<1>,
    pub yq59: N,
    pub bw60: FixedBytes<1>,
    pub yw61: u32,
    pub aw62: RangedInt<u8, 3, 200>,
    pub xe63: Option<u8>,
    pub bq64: FixedBytes<1>,
}

#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
pub struct Many4(pub u32, pub i8, pub u8, pub u8, pub u16, pub u32, pub RangedInt<u8, 3, 200>, pub i8, pub u32, pub u32, pub bool, pub i8, pub i31, pub u8, pub u32, pub u32, pub u32, pub i31, pub bool, pub i31, pub i8, pub bool, pub i31, pub u16, pub RangedInt<u8, 3, 200>, pub bool, pub FixedBytes<1>, pub FixedBytes<1>, pub u16, pub i8, pub i31, pub u8, pub u32, pub FixedBytes<1>, pub FixedBytes<1>, pub u8, pub u32, pub i8, pub u16, pub bool, pub FixedBytes<1>, pub u16, pub u8, pub u8, pub RangedInt<u8, 3, 200>, pub u8, pub bool, pub u32, pub FixedBytes<1>, pub RangedInt<u8, 3, 200>, pub RangedInt<u8, 3, 200>, pub u32, pub u32, pub RangedInt<u8, 3, 200>, pub bool, pub u16, pub u32, pub i31, pub FixedBytes<1>, pub i31, pub i8, pub u32, pub u8, pub u8, pub RangedInt<u8, 3, 200>, pub bool, pub u16, pub u16, pub RangedInt<u8, 3, 200>, pub FixedBytes<1>);
