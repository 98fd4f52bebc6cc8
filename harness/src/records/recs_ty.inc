// generated by tools/gen_records.py
ty_struct!(R00());
rec!(R00());
lens!(R00:);
ty_struct!(R01);
rec!(R01);
lens!(R01:);
ty_struct!(R02 { ty: i32 });
rec!(R02 { ty: i32 });
nolens!(R02);
ty_struct!(R03(0: u30));
rec!(R03(0: u30));
lens!(R03: u30);
ty_struct!(R04 { fixed: Nullable<u16> });
rec!(R04 { fixed: Nullable<u16> });
nolens!(R04);
ty_struct!(P(0: FixSeq<i16, 3>));
rec!(P(0: FixSeq<i16, 3>));
nolens!(P);
ty_struct!(R06(0: RangedInt<u16, 1000, 1010>, 1: ()));
rec!(R06(0: RangedInt<u16, 1000, 1010>, 1: ()));
lens!(R06: RangedInt<u16, 1000, 1010>, ());
ty_struct!(R07(0: FixedBytes<0>, 1: Z));
rec!(R07(0: FixedBytes<0>, 1: Z));
nolens!(R07);
ty_struct!(U(0: R03, 1: FixedBytes<4>));
rec!(U(0: R03, 1: FixedBytes<4>));
lens!(U: R03, FixedBytes<4>);
ty_struct!(R09 { result: Dynamic<u8, LimSeq<R02, 2>>, total: FixedBytes<1>, estimate: U });
rec!(R09 { result: Dynamic<u8, LimSeq<R02, 2>>, total: FixedBytes<1>, estimate: U });
nolens!(R09);
ty_struct!(R10(0: R01, 1: FixedString<3>, 2: R01));
rec!(R10(0: R01, 1: FixedString<3>, 2: R01));
lens!(R10: R01, FixedString<3>, R01);
ty_struct!(T(0: Padded<RangedInt<i16, -300, 300>, 4>, 1: Dynamic<u16, String>, 2: Dynamic<u16, Sequence<u8>>, 3: i16));
rec!(T(0: Padded<RangedInt<i16, -300, 300>, 4>, 1: Dynamic<u16, String>, 2: Dynamic<u16, Sequence<u8>>, 3: i16));
nolens!(T);
ty_struct!(R12(0: i16, 1: EUnordered16, 2: DWide, 3: P, 4: U));
rec!(R12(0: i16, 1: EUnordered16, 2: DWide, 3: P, 4: U));
nolens!(R12);
ty_struct!(R13(0: Padded<u8, 3>, 1: Padded<u30, 3>, 2: AutoBox<FixedBytes<4>>, 3: Dynamic<u16, Sequence<Option<DWide>>>, 4: P, 5: T));
rec!(R13(0: Padded<u8, 3>, 1: Padded<u30, 3>, 2: AutoBox<FixedBytes<4>>, 3: Dynamic<u16, Sequence<Option<DWide>>>, 4: P, 5: T));
nolens!(R13);
ty_struct!(R14 { len: Dynamic<u30, Padded<u16, 1>>, encode: R12, data: ESparse8, phantom: u16, i: FixSeq<Option<()>, 3>, option: Dynamic<u8, LimSeq<Option<RangedInt<u16, 1000, 1010>>, 0>>, size: EWide32 });
rec!(R14 { len: Dynamic<u30, Padded<u16, 1>>, encode: R12, data: ESparse8, phantom: u16, i: FixSeq<Option<()>, 3>, option: Dynamic<u8, LimSeq<Option<RangedInt<u16, 1000, 1010>>, 0>>, size: EWide32 });
nolens!(R14);
ty_struct!(R15 { __pad: R10, r#struct: Option<u8>, d: Option<N>, _reserved: AutoBox<T>, this: FixedBytes<1>, _p: FixedString<3>, other: P, unused: LimSeq<u8, 3> });
rec!(R15 { __pad: R10, r#struct: Option<u8>, d: Option<N>, _reserved: AutoBox<T>, this: FixedBytes<1>, _p: FixedString<3>, other: P, unused: LimSeq<u8, 3> });
nolens!(R15);
ty_struct!(R16 { target: Dynamic<u16, Sequence<i31>>, e: AutoBox<AutoBox<EWide32>>, __: FixSeq<Dynamic<u8, String>, 2>, sum: Dynamic<u8, R00>, x0: Option<Option<()>>, value: f64, tgt: FixedBytes<4>, none: FixedString<3>, some: Nullable<Dynamic<u8, String>> });
rec!(R16 { target: Dynamic<u16, Sequence<i31>>, e: AutoBox<AutoBox<EWide32>>, __: FixSeq<Dynamic<u8, String>, 2>, sum: Dynamic<u8, R00>, x0: Option<Option<()>>, value: f64, tgt: FixedBytes<4>, none: FixedString<3>, some: Nullable<Dynamic<u8, String>> });
nolens!(R16);
ty_struct!(R17(0: i64, 1: R01, 2: Dynamic<u8, LimSeq<FixSeq<i8, 1>, 2>>, 3: N, 4: FixSeq<f64, 2>, 5: f64, 6: Dynamic<u30, Dynamic<u8, Nullable<u16>>>, 7: U, 8: R03, 9: Nullable<u16>));
rec!(R17(0: i64, 1: R01, 2: Dynamic<u8, LimSeq<FixSeq<i8, 1>, 2>>, 3: N, 4: FixSeq<f64, 2>, 5: f64, 6: Dynamic<u30, Dynamic<u8, Nullable<u16>>>, 7: U, 8: R03, 9: Nullable<u16>));
nolens!(R17);
ty_struct!(R18 { bytes: u30, ret: N, n: Padded<FixedBytes<1>, 4>, pos0: Dynamic<u16, Sequence<FixedString<3>>>, b: R10, field: U, version: P, c: Dynamic<u16, Sequence<U>>, known: Option<U>, x: i32, pos1: Option<Option<()>> });
rec!(R18 { bytes: u30, ret: N, n: Padded<FixedBytes<1>, 4>, pos0: Dynamic<u16, Sequence<FixedString<3>>>, b: R10, field: U, version: P, c: Dynamic<u16, Sequence<U>>, known: Option<U>, x: i32, pos1: Option<Option<()>> });
nolens!(R18);
ty_struct!(R19 { max: Z, u: FixSeq<R06, 2>, output: i16, padding: Dynamic<u8, Sequence<u16>>, id: Dynamic<u8, String>, acc: Z, min: Option<N>, r#match: FixSeq<U, 1>, p: R01, r#fn: u8, self_: FixSeq<R14, 1>, buf: FixSeq<Dynamic<u30, Vec<u8>>, 3> });
rec!(R19 { max: Z, u: FixSeq<R06, 2>, output: i16, padding: Dynamic<u8, Sequence<u16>>, id: Dynamic<u8, String>, acc: Z, min: Option<N>, r#match: FixSeq<U, 1>, p: R01, r#fn: u8, self_: FixSeq<R14, 1>, buf: FixSeq<Dynamic<u30, Vec<u8>>, 3> });
nolens!(R19);
ty_struct!(R20(0: FixedString<3>, 1: u64, 2: R01, 3: FixedBytes<0>, 4: R00, 5: ESparse8, 6: R03, 7: i64, 8: i16, 9: R01, 10: u32, 11: u32, 12: R10));
rec!(R20(0: FixedString<3>, 1: u64, 2: R01, 3: FixedBytes<0>, 4: R00, 5: ESparse8, 6: R03, 7: i64, 8: i16, 9: R01, 10: u32, 11: u32, 12: R10));
lens!(R20: FixedString<3>, u64, R01, FixedBytes<0>, R00, ESparse8, R03, i64, i16, R01, u32, u32, R10);
ty_struct!(R21 { reserved: ESparse8, unknown: bool, _padding: R00, _0: EUnordered16, x1: R01, r#async: R10, __private: u30, tedium: i16, hash: R06, parser: R10, _1: R06, dummy: bool, _x: u30, parse: RangedInt<i16, -300, 300> });
rec!(R21 { reserved: ESparse8, unknown: bool, _padding: R00, _0: EUnordered16, x1: R01, r#async: R10, __private: u30, tedium: i16, hash: R06, parser: R10, _1: R06, dummy: bool, _x: u30, parse: RangedInt<i16, -300, 300> });
lens!(R21: ESparse8, bool, R00, EUnordered16, R01, R10, u30, i16, R06, R10, R06, bool, u30, RangedInt<i16, -300, 300>);
ty_struct!(R22 { res: R03, count: U, marker: f64, tag: EWide32, write_to: EWide32, UPPER: RangedInt<i16, -300, 300>, r#use: R00, buffer: R03, ___0: FixedString<3>, f: RangedInt<i16, -300, 300>, fields: R21, ignored: ESparse8, skip: R00, resolve_zero: R10, _buf: R21, name: R21, decode: u32 });
rec!(R22 { res: R03, count: U, marker: f64, tag: EWide32, write_to: EWide32, UPPER: RangedInt<i16, -300, 300>, r#use: R00, buffer: R03, ___0: FixedString<3>, f: RangedInt<i16, -300, 300>, fields: R21, ignored: ESparse8, skip: R00, resolve_zero: R10, _buf: R21, name: R21, decode: u32 });
lens!(R22: R03, U, f64, EWide32, EWide32, RangedInt<i16, -300, 300>, R00, R03, FixedString<3>, RangedInt<i16, -300, 300>, R21, ESparse8, R00, R10, R21, R21, u32);
ty_struct!(R23(0: Dynamic<u16, VPadded<Bytes, 0>>, 1: R06, 2: u16, 3: Option<u64>, 4: u30, 5: AutoBox<FixSeq<u16, 1>>, 6: i64, 7: Dynamic<u16, Dynamic<u16, Bytes>>, 8: RangedInt<u16, 1000, 1010>, 9: Dynamic<u16, Sequence<i32>>, 10: ESparse8, 11: ESparse8, 12: R00, 13: AutoBox<u64>, 14: Dynamic<u16, Sequence<Dynamic<u16, Sequence<FixedBytes<1>>>>>, 15: u8, 16: Dynamic<u8, Sequence<u16>>, 17: Dynamic<u8, LimSeq<FixedBytes<1>, 2>>, 18: Dynamic<u30, Vec<u8>>, 19: R06, 20: Dynamic<u8, Nullable<Dynamic<u8, String>>>));
rec!(R23(0: Dynamic<u16, VPadded<Bytes, 0>>, 1: R06, 2: u16, 3: Option<u64>, 4: u30, 5: AutoBox<FixSeq<u16, 1>>, 6: i64, 7: Dynamic<u16, Dynamic<u16, Bytes>>, 8: RangedInt<u16, 1000, 1010>, 9: Dynamic<u16, Sequence<i32>>, 10: ESparse8, 11: ESparse8, 12: R00, 13: AutoBox<u64>, 14: Dynamic<u16, Sequence<Dynamic<u16, Sequence<FixedBytes<1>>>>>, 15: u8, 16: Dynamic<u8, Sequence<u16>>, 17: Dynamic<u8, LimSeq<FixedBytes<1>, 2>>, 18: Dynamic<u30, Vec<u8>>, 19: R06, 20: Dynamic<u8, Nullable<Dynamic<u8, String>>>));
nolens!(R23);
ty_struct!(R24());
rec!(R24());
lens!(R24:);
ty_struct!(R25());
rec!(R25());
lens!(R25:);
ty_struct!(R26 { mixedCase: R24 });
rec!(R26 { mixedCase: R24 });
lens!(R26: R24);
ty_struct!(R27(0: String));
rec!(R27(0: String));
nolens!(R27);
ty_struct!(R28(0: R00));
rec!(R28(0: R00));
lens!(R28: R00);
ty_struct!(R29(0: FixSeq<Dynamic<u16, R15>, 3>));
rec!(R29(0: FixSeq<Dynamic<u16, R15>, 3>));
nolens!(R29);
ty_struct!(R30 { a: Dynamic<u8, LimSeq<Option<()>, 0>>, X: FixSeq<u8, 3> });
rec!(R30 { a: Dynamic<u8, LimSeq<Option<()>, 0>>, X: FixSeq<u8, 3> });
nolens!(R30);
ty_struct!(R31(0: RangedInt<i16, -300, 300>, 1: AutoBox<R23>));
rec!(R31(0: RangedInt<i16, -300, 300>, 1: AutoBox<R23>));
nolens!(R31);
ty_struct!(R32 { usize_: Dynamic<u8, Nullable<Dynamic<u8, String>>>, out: Sequence<N> });
rec!(R32 { usize_: Dynamic<u8, Nullable<Dynamic<u8, String>>>, out: Sequence<N> });
nolens!(R32);
ty_struct!(R33 { r#type: Option<u8>, std: Dynamic<u8, LimSeq<Dynamic<u16, Sequence<Dynamic<u30, VPadded<Bytes, 0>>>>, 2>>, naïve: i8 });
rec!(R33 { r#type: Option<u8>, std: Dynamic<u8, LimSeq<Dynamic<u16, Sequence<Dynamic<u30, VPadded<Bytes, 0>>>>, 2>>, naïve: i8 });
nolens!(R33);
ty_struct!(R34 { none: (), acc: FixedBytes<1>, _padding: i64 });
rec!(R34 { none: (), acc: FixedBytes<1>, _padding: i64 });
nolens!(R34);
ty_struct!(R35(0: FixedBytes<4>, 1: R06, 2: R06, 3: i32));
rec!(R35(0: FixedBytes<4>, 1: R06, 2: R06, 3: i32));
lens!(R35: FixedBytes<4>, R06, R06, i32);
ty_struct!(R36 { resolve_zero: R22, known: i32, decode: EUnordered16, data: f64, a: FixedBytes<4> });
rec!(R36 { resolve_zero: R22, known: i32, decode: EUnordered16, data: f64, a: FixedBytes<4> });
lens!(R36: R22, i32, EUnordered16, f64, FixedBytes<4>);
ty_struct!(R37 { _reserved: R21, write_to: i32, d: i32, tag: FUnit, c: U, r#fn: i31 });
rec!(R37 { _reserved: R21, write_to: i32, d: i32, tag: FUnit, c: U, r#fn: i31 });
lens!(R37: R21, i32, i32, FUnit, U, i31);
ty_struct!(R38 { size: Option<()>, self_: FixSeq<Padded<i31, 1>, 1>, fixed: FixedBytes<4>, this: Padded<RangedInt<i16, -300, 300>, 2>, _p: N, result: Option<Dynamic<u16, Sequence<DWide>>>, p: Option<u8> });
rec!(R38 { size: Option<()>, self_: FixSeq<Padded<i31, 1>, 1>, fixed: FixedBytes<4>, this: Padded<RangedInt<i16, -300, 300>, 2>, _p: N, result: Option<Dynamic<u16, Sequence<DWide>>>, p: Option<u8> });
nolens!(R38);
ty_struct!(R39(0: Padded<u30, 4>, 1: FixedString<3>, 2: Dynamic<u8, LimSeq<RangedInt<u16, 1000, 1010>, 3>>, 3: Option<Dynamic<u30, R26>>, 4: Z, 5: Dynamic<u16, Vec<u8>>, 6: Option<Option<u8>>, 7: Nullable<u16>));
rec!(R39(0: Padded<u30, 4>, 1: FixedString<3>, 2: Dynamic<u8, LimSeq<RangedInt<u16, 1000, 1010>, 3>>, 3: Option<Dynamic<u30, R26>>, 4: Z, 5: Dynamic<u16, Vec<u8>>, 6: Option<Option<u8>>, 7: Nullable<u16>));
nolens!(R39);
ty_struct!(R40(0: Padded<i64, 2>, 1: R37, 2: RangedInt<u16, 1000, 1010>, 3: R18, 4: i32, 5: Dynamic<u8, LimSeq<u8, 3>>, 6: Dynamic<u16, Option<DMixed>>, 7: AutoBox<P>, 8: bool));
rec!(R40(0: Padded<i64, 2>, 1: R37, 2: RangedInt<u16, 1000, 1010>, 3: R18, 4: i32, 5: Dynamic<u8, LimSeq<u8, 3>>, 6: Dynamic<u16, Option<DMixed>>, 7: AutoBox<P>, 8: bool));
nolens!(R40);
ty_struct!(R41 { r#match: i32, tgt: Option<Dynamic<u8, String>>, r#use: AutoBox<Dynamic<u8, f64>>, name: Dynamic<u16, Sequence<FUnit>>, b: Dynamic<u8, LimSeq<FixedBytes<4>, 3>>, mixedCase: R09, min: Option<Dynamic<u16, FixedBytes<0>>>, f: N, fields: Dynamic<u8, Nullable<Dynamic<u8, String>>>, target: VPadded<Bytes, 0> });
rec!(R41 { r#match: i32, tgt: Option<Dynamic<u8, String>>, r#use: AutoBox<Dynamic<u8, f64>>, name: Dynamic<u16, Sequence<FUnit>>, b: Dynamic<u8, LimSeq<FixedBytes<4>, 3>>, mixedCase: R09, min: Option<Dynamic<u16, FixedBytes<0>>>, f: N, fields: Dynamic<u8, Nullable<Dynamic<u8, String>>>, target: VPadded<Bytes, 0> });
nolens!(R41);
ty_struct!(R42(0: RangedInt<u8, 3, 200>, 1: FixSeq<AutoBox<u30>, 3>, 2: FixedString<3>, 3: Padded<i31, 4>, 4: Dynamic<u8, Nullable<Dynamic<u8, String>>>, 5: u64, 6: u64, 7: Padded<u8, 1>, 8: Padded<FixedBytes<1>, 4>, 9: Dynamic<u16, Sequence<Dynamic<u16, Sequence<u32>>>>, 10: String));
rec!(R42(0: RangedInt<u8, 3, 200>, 1: FixSeq<AutoBox<u30>, 3>, 2: FixedString<3>, 3: Padded<i31, 4>, 4: Dynamic<u8, Nullable<Dynamic<u8, String>>>, 5: u64, 6: u64, 7: Padded<u8, 1>, 8: Padded<FixedBytes<1>, 4>, 9: Dynamic<u16, Sequence<Dynamic<u16, Sequence<u32>>>>, 10: String));
nolens!(R42);
ty_struct!(R43 { len: FixedBytes<0>, encode: Dynamic<u8, Sequence<N>>, ___0: Dynamic<u8, LimSeq<FixedBytes<4>, 0>>, unknown: Dynamic<u8, LimSeq<Option<ESparse8>, 0>>, u: FixedBytes<1>, _0: u32, other: Option<()>, _buf: FixedBytes<0>, count: Dynamic<u8, LimSeq<DMixed, 3>>, _x: Dynamic<u16, LimSeq<u8, 3>>, buf: u30, ret: R34 });
rec!(R43 { len: FixedBytes<0>, encode: Dynamic<u8, Sequence<N>>, ___0: Dynamic<u8, LimSeq<FixedBytes<4>, 0>>, unknown: Dynamic<u8, LimSeq<Option<ESparse8>, 0>>, u: FixedBytes<1>, _0: u32, other: Option<()>, _buf: FixedBytes<0>, count: Dynamic<u8, LimSeq<DMixed, 3>>, _x: Dynamic<u16, LimSeq<u8, 3>>, buf: u30, ret: R34 });
nolens!(R43);
ty_struct!(R44 { X: R06, estimate: f64, option: Option<Dynamic<u16, Sequence<u30>>>, id: Dynamic<u8, LimSeq<Padded<i64, 3>, 1>>, unused: Option<Dynamic<u8, EUnordered16>>, UPPER: Dynamic<u8, String>, some: Dynamic<u8, String>, version: i16, padding: Option<i31>, total: Dynamic<u16, String>, r#async: AutoBox<RangedInt<i16, -300, 300>>, i: RangedInt<u8, 3, 200>, max: i32 });
rec!(R44 { X: R06, estimate: f64, option: Option<Dynamic<u16, Sequence<u30>>>, id: Dynamic<u8, LimSeq<Padded<i64, 3>, 1>>, unused: Option<Dynamic<u8, EUnordered16>>, UPPER: Dynamic<u8, String>, some: Dynamic<u8, String>, version: i16, padding: Option<i31>, total: Dynamic<u16, String>, r#async: AutoBox<RangedInt<i16, -300, 300>>, i: RangedInt<u8, 3, 200>, max: i32 });
nolens!(R44);
ty_struct!(R45(0: Dynamic<u8, Sequence<u16>>, 1: Option<Dynamic<u8, ESparse8>>, 2: ESparse8, 3: i16, 4: u16, 5: FixedString<3>, 6: RangedInt<u8, 3, 200>, 7: Padded<FixedBytes<1>, 1>, 8: AutoBox<Dynamic<u8, LimSeq<EWide32, 0>>>, 9: R01, 10: Dynamic<u16, R14>, 11: Option<Padded<RangedInt<i16, -300, 300>, 3>>, 12: Dynamic<u8, R09>, 13: Dynamic<u16, Sequence<Option<Option<N>>>>));
rec!(R45(0: Dynamic<u8, Sequence<u16>>, 1: Option<Dynamic<u8, ESparse8>>, 2: ESparse8, 3: i16, 4: u16, 5: FixedString<3>, 6: RangedInt<u8, 3, 200>, 7: Padded<FixedBytes<1>, 1>, 8: AutoBox<Dynamic<u8, LimSeq<EWide32, 0>>>, 9: R01, 10: Dynamic<u16, R14>, 11: Option<Padded<RangedInt<i16, -300, 300>, 3>>, 12: Dynamic<u8, R09>, 13: Dynamic<u16, Sequence<Option<Option<N>>>>));
nolens!(R45);
ty_struct!(R46 { parse: EUnordered16, usize_: R35, pos0: R20, res: RangedInt<u16, 1000, 1010>, ignored: u32, field: RangedInt<u8, 3, 200>, bytes: R06, __pad: R06, dummy: R00, x0: R28, pos1: R35, std: R00, reserved: R35, parser: R28, hash: R00, naïve: R26, r#type: R36 });
rec!(R46 { parse: EUnordered16, usize_: R35, pos0: R20, res: RangedInt<u16, 1000, 1010>, ignored: u32, field: RangedInt<u8, 3, 200>, bytes: R06, __pad: R06, dummy: R00, x0: R28, pos1: R35, std: R00, reserved: R35, parser: R28, hash: R00, naïve: R26, r#type: R36 });
lens!(R46: EUnordered16, R35, R20, RangedInt<u16, 1000, 1010>, u32, RangedInt<u8, 3, 200>, R06, R06, R00, R28, R35, R00, R35, R28, R00, R26, R36);
ty_struct!(R47 { output: Dynamic<u8, Sequence<N>>, tedium: P, __: R43, buffer: u30, skip: Dynamic<u8, DMixed>, out: i8, r#struct: i64, x1: u16, x: Dynamic<u16, Sequence<Option<N>>>, _1: i8, e: Dynamic<u8, LimSeq<FixedString<3>, 2>>, __private: Dynamic<u30, Padded<FixedBytes<0>, 4>>, value: FixedBytes<0>, phantom: Dynamic<u8, LimSeq<EWide32, 3>>, n: R12, sum: FixedBytes<4>, ty: RangedInt<u8, 3, 200>, marker: RangedInt<u8, 3, 200>, size: ESparse8, __pad: R43, some: Dynamic<u30, VPadded<Bytes, 0>> });
rec!(R47 { output: Dynamic<u8, Sequence<N>>, tedium: P, __: R43, buffer: u30, skip: Dynamic<u8, DMixed>, out: i8, r#struct: i64, x1: u16, x: Dynamic<u16, Sequence<Option<N>>>, _1: i8, e: Dynamic<u8, LimSeq<FixedString<3>, 2>>, __private: Dynamic<u30, Padded<FixedBytes<0>, 4>>, value: FixedBytes<0>, phantom: Dynamic<u8, LimSeq<EWide32, 3>>, n: R12, sum: FixedBytes<4>, ty: RangedInt<u8, 3, 200>, marker: RangedInt<u8, 3, 200>, size: ESparse8, __pad: R43, some: Dynamic<u30, VPadded<Bytes, 0>> });
nolens!(R47);
ty_struct!(R48);
rec!(R48);
nolens!(R48);
ty_struct!(R49 {  });
rec!(R49 {  });
lens!(R49:);
ty_struct!(R50 { buf: Option<FixedBytes<1>> });
rec!(R50 { buf: Option<FixedBytes<1>> });
nolens!(R50);
ty_struct!(R51(0: P));
rec!(R51(0: P));
nolens!(R51);
ty_struct!(R52(0: R22));
rec!(R52(0: R22));
nolens!(R52);
ty_struct!(R53 { tedium: Sequence<N> });
rec!(R53 { tedium: Sequence<N> });
nolens!(R53);
ty_struct!(R54(0: R06, 1: R06));
rec!(R54(0: R06, 1: R06));
lens!(R54: R06, R06);
ty_struct!(R55 { fixed: DWide, max: AutoBox<Dynamic<u8, LimSeq<u8, 3>>> });
rec!(R55 { fixed: DWide, max: AutoBox<Dynamic<u8, LimSeq<u8, 3>>> });
nolens!(R55);
ty_struct!(R56(0: Dynamic<u30, R18>, 1: DMixed));
rec!(R56(0: Dynamic<u30, R18>, 1: DMixed));
nolens!(R56);
ty_struct!(R57(0: Dynamic<u8, Dynamic<u16, Sequence<Option<RangedInt<u16, 1000, 1010>>>>>, 1: R10, 2: String));
rec!(R57(0: Dynamic<u8, Dynamic<u16, Sequence<Option<RangedInt<u16, 1000, 1010>>>>>, 1: R10, 2: String));
nolens!(R57);
ty_struct!(R58(0: Dynamic<u30, Bytes>, 1: Option<Dynamic<u8, LimSeq<i32, 0>>>, 2: Nullable<u16>));
rec!(R58(0: Dynamic<u30, Bytes>, 1: Option<Dynamic<u8, LimSeq<i32, 0>>>, 2: Nullable<u16>));
nolens!(R58);
ty_struct!(R59(0: Option<EUnordered16>, 1: DWide, 2: Option<R10>, 3: R13));
rec!(R59(0: Option<EUnordered16>, 1: DWide, 2: Option<R10>, 3: R13));
nolens!(R59);
ty_struct!(R60 { r#struct: Dynamic<u8, Bytes>, field: RangedInt<u16, 1000, 1010>, std: R33, dummy: Dynamic<u16, String>, bytes: i31 });
rec!(R60 { r#struct: Dynamic<u8, Bytes>, field: RangedInt<u16, 1000, 1010>, std: R33, dummy: Dynamic<u16, String>, bytes: i31 });
nolens!(R60);
ty_struct!(R61(0: R00, 1: R26, 2: R26, 3: R22, 4: RangedInt<u8, 3, 200>, 5: R00));
rec!(R61(0: R00, 1: R26, 2: R26, 3: R22, 4: RangedInt<u8, 3, 200>, 5: R00));
lens!(R61: R00, R26, R26, R22, RangedInt<u8, 3, 200>, R00);
ty_struct!(R62 { pos1: Option<i8>, resolve_zero: Option<Dynamic<u8, Nullable<Dynamic<u8, String>>>>, encode: Dynamic<u8, Dynamic<u8, LimSeq<DWide, 3>>>, tag: i8, __: Option<f64>, result: RangedInt<u16, 1000, 1010>, _1: Sequence<u16> });
rec!(R62 { pos1: Option<i8>, resolve_zero: Option<Dynamic<u8, Nullable<Dynamic<u8, String>>>>, encode: Dynamic<u8, Dynamic<u8, LimSeq<DWide, 3>>>, tag: i8, __: Option<f64>, result: RangedInt<u16, 1000, 1010>, _1: Sequence<u16> });
nolens!(R62);
ty_struct!(R63 { output: R54, hash: EWide32, r#use: R46, c: R49, len: u64, total: f64, acc: R35, pos0: R25 });
rec!(R63 { output: R54, hash: EWide32, r#use: R46, c: R49, len: u64, total: f64, acc: R35, pos0: R25 });
lens!(R63: R54, EWide32, R46, R49, u64, f64, R35, R25);
ty_struct!(R64(0: Dynamic<u8, T>, 1: Dynamic<u16, VPadded<Bytes, 0>>, 2: i32, 3: Dynamic<u8, Bytes>, 4: FixSeq<Dynamic<u8, LimSeq<FUnit, 3>>, 3>, 5: AutoBox<FixSeq<bool, 3>>, 6: bool, 7: FixSeq<AutoBox<DWide>, 3>, 8: R30));
rec!(R64(0: Dynamic<u8, T>, 1: Dynamic<u16, VPadded<Bytes, 0>>, 2: i32, 3: Dynamic<u8, Bytes>, 4: FixSeq<Dynamic<u8, LimSeq<FUnit, 3>>, 3>, 5: AutoBox<FixSeq<bool, 3>>, 6: bool, 7: FixSeq<AutoBox<DWide>, 3>, 8: R30));
nolens!(R64);
ty_struct!(R65(0: Option<()>, 1: FixedString<3>, 2: (), 3: i64, 4: Option<FUnit>, 5: R48, 6: Dynamic<u8, Vec<u8>>, 7: FixedString<3>, 8: R06, 9: Dynamic<u8, Option<N>>));
rec!(R65(0: Option<()>, 1: FixedString<3>, 2: (), 3: i64, 4: Option<FUnit>, 5: R48, 6: Dynamic<u8, Vec<u8>>, 7: FixedString<3>, 8: R06, 9: Dynamic<u8, Option<N>>));
nolens!(R65);
ty_struct!(R66 { _padding: FixSeq<R20, 3>, other: Dynamic<u8, R59>, fields: Dynamic<u8, R25>, known: FixSeq<RangedInt<u16, 1000, 1010>, 2>, decode: FixedBytes<4>, target: Option<()>, _x: f64, a: R43, value: Dynamic<u16, Sequence<i31>>, _0: Dynamic<u16, R40>, min: Dynamic<u16, Option<Option<()>>> });
rec!(R66 { _padding: FixSeq<R20, 3>, other: Dynamic<u8, R59>, fields: Dynamic<u8, R25>, known: FixSeq<RangedInt<u16, 1000, 1010>, 2>, decode: FixedBytes<4>, target: Option<()>, _x: f64, a: R43, value: Dynamic<u16, Sequence<i31>>, _0: Dynamic<u16, R40>, min: Dynamic<u16, Option<Option<()>>> });
nolens!(R66);
ty_struct!(R67 { self_: EUnordered16, data: R56, x: FixSeq<EUnordered16, 3>, b: FixedBytes<0>, id: Dynamic<u8, LimSeq<Dynamic<u8, Sequence<N>>, 0>>, x0: Padded<i64, 1>, ty: bool, X: Dynamic<u8, R45>, ___0: R38, mixedCase: Dynamic<u16, Sequence<Dynamic<u8, LimSeq<i31, 1>>>>, r#match: VPadded<Bytes, 1>, n: ESparse8 });
rec!(R67 { self_: EUnordered16, data: R56, x: FixSeq<EUnordered16, 3>, b: FixedBytes<0>, id: Dynamic<u8, LimSeq<Dynamic<u8, Sequence<N>>, 0>>, x0: Padded<i64, 1>, ty: bool, X: Dynamic<u8, R45>, ___0: R38, mixedCase: Dynamic<u16, Sequence<Dynamic<u8, LimSeq<i31, 1>>>>, r#match: VPadded<Bytes, 1>, n: ESparse8 });
nolens!(R67);
ty_struct!(R68(0: Dynamic<u8, Dynamic<u16, Sequence<Option<()>>>>, 1: EWide32, 2: Dynamic<u16, R37>, 3: FixSeq<u8, 2>, 4: FUnit, 5: Dynamic<u8, LimSeq<Z, 3>>, 6: u16, 7: FUnit, 8: Dynamic<u8, LimSeq<Dynamic<u8, LimSeq<u16, 1>>, 1>>, 9: u16, 10: Dynamic<u16, Dynamic<u8, Sequence<u16>>>, 11: RangedInt<u8, 3, 200>, 12: DWide));
rec!(R68(0: Dynamic<u8, Dynamic<u16, Sequence<Option<()>>>>, 1: EWide32, 2: Dynamic<u16, R37>, 3: FixSeq<u8, 2>, 4: FUnit, 5: Dynamic<u8, LimSeq<Z, 3>>, 6: u16, 7: FUnit, 8: Dynamic<u8, LimSeq<Dynamic<u8, LimSeq<u16, 1>>, 1>>, 9: u16, 10: Dynamic<u16, Dynamic<u8, Sequence<u16>>>, 11: RangedInt<u8, 3, 200>, 12: DWide));
nolens!(R68);
ty_struct!(R69(0: FixedString<3>, 1: Dynamic<u8, LimSeq<Dynamic<u16, Sequence<FixedString<3>>>, 0>>, 2: Dynamic<u16, Sequence<EWide32>>, 3: R61, 4: N, 5: Option<FixSeq<u8, 1>>, 6: R51, 7: Dynamic<u16, Sequence<Dynamic<u8, Sequence<N>>>>, 8: R66, 9: Z, 10: R10, 11: RangedInt<u8, 3, 200>, 12: Dynamic<u16, Sequence<bool>>, 13: R28));
rec!(R69(0: FixedString<3>, 1: Dynamic<u8, LimSeq<Dynamic<u16, Sequence<FixedString<3>>>, 0>>, 2: Dynamic<u16, Sequence<EWide32>>, 3: R61, 4: N, 5: Option<FixSeq<u8, 1>>, 6: R51, 7: Dynamic<u16, Sequence<Dynamic<u8, Sequence<N>>>>, 8: R66, 9: Z, 10: R10, 11: RangedInt<u8, 3, 200>, 12: Dynamic<u16, Sequence<bool>>, 13: R28));
nolens!(R69);
ty_struct!(R70 { __private: Option<u8>, naïve: R02, count: (), ignored: R06, r#async: f64, _buf: FUnit, tgt: Dynamic<u8, LimSeq<Dynamic<u16, Sequence<bool>>, 1>>, sum: Dynamic<u16, Sequence<u16>>, d: R06, parse: R68, unknown: R30, res: DMixed, skip: Dynamic<u8, LimSeq<Dynamic<u16, Bytes>, 0>>, unused: RangedInt<u16, 1000, 1010>, usize_: AutoBox<Padded<i8, 4>>, UPPER: R49, phantom: FixSeq<Dynamic<u16, Sequence<N>>, 3> });
rec!(R70 { __private: Option<u8>, naïve: R02, count: (), ignored: R06, r#async: f64, _buf: FUnit, tgt: Dynamic<u8, LimSeq<Dynamic<u16, Sequence<bool>>, 1>>, sum: Dynamic<u16, Sequence<u16>>, d: R06, parse: R68, unknown: R30, res: DMixed, skip: Dynamic<u8, LimSeq<Dynamic<u16, Bytes>, 0>>, unused: RangedInt<u16, 1000, 1010>, usize_: AutoBox<Padded<i8, 4>>, UPPER: R49, phantom: FixSeq<Dynamic<u16, Sequence<N>>, 3> });
nolens!(R70);
ty_struct!(R71 { padding: Z, version: Option<Option<()>>, r#type: R35, p: FixedBytes<4>, x1: R43, write_to: Padded<i31, 0>, e: Padded<FUnit, 0>, _p: u32, none: Dynamic<u8, LimSeq<AutoBox<RangedInt<u8, 3, 200>>, 0>>, _reserved: R01, this: i32, r#fn: R36, reserved: R47, buffer: AutoBox<Dynamic<u8, LimSeq<RangedInt<i16, -300, 300>, 2>>>, name: u16, out: FUnit, u: i64, marker: R70, option: FixSeq<Padded<i32, 4>, 3>, parser: FixSeq<N, 1>, i: Dynamic<u8, LimSeq<Dynamic<u8, R54>, 1>> });
rec!(R71 { padding: Z, version: Option<Option<()>>, r#type: R35, p: FixedBytes<4>, x1: R43, write_to: Padded<i31, 0>, e: Padded<FUnit, 0>, _p: u32, none: Dynamic<u8, LimSeq<AutoBox<RangedInt<u8, 3, 200>>, 0>>, _reserved: R01, this: i32, r#fn: R36, reserved: R47, buffer: AutoBox<Dynamic<u8, LimSeq<RangedInt<i16, -300, 300>, 2>>>, name: u16, out: FUnit, u: i64, marker: R70, option: FixSeq<Padded<i32, 4>, 3>, parser: FixSeq<N, 1>, i: Dynamic<u8, LimSeq<Dynamic<u8, R54>, 1>> });
nolens!(R71);
ty_struct!(EmptyUnitFix);
rec!(EmptyUnitFix);
lens!(EmptyUnitFix:);
ty_struct!(EmptyUnitEst);
rec!(EmptyUnitEst);
lens!(EmptyUnitEst:);
ty_struct!(EmptyTupleFix());
rec!(EmptyTupleFix());
lens!(EmptyTupleFix:);
ty_struct!(EmptyTupleEst());
rec!(EmptyTupleEst());
lens!(EmptyTupleEst:);
ty_struct!(EmptyBracesFix {  });
rec!(EmptyBracesFix {  });
lens!(EmptyBracesFix:);
ty_struct!(EmptyBracesEst {  });
rec!(EmptyBracesEst {  });
lens!(EmptyBracesEst:);
ty_struct!(Wide0 { f0: FixedBytes<200>, f1: FixedBytes<100> });
rec!(Wide0 { f0: FixedBytes<200>, f1: FixedBytes<100> });
nolens!(Wide0);
ty_struct!(Wide1 { f0: FixedBytes<200>, f1: u16, f2: FixedBytes<100> });
rec!(Wide1 { f0: FixedBytes<200>, f1: u16, f2: FixedBytes<100> });
lens!(Wide1: FixedBytes<200>, u16, FixedBytes<100>);
ty_struct!(Wide2(0: FixedBytes<255>, 1: u8));
rec!(Wide2(0: FixedBytes<255>, 1: u8));
nolens!(Wide2);
ty_struct!(Wide3(0: FixedBytes<300>));
rec!(Wide3(0: FixedBytes<300>));
lens!(Wide3: FixedBytes<300>);
ty_struct!(Wide4(0: Padded<u16, 300>));
rec!(Wide4(0: Padded<u16, 300>));
nolens!(Wide4);
ty_struct!(Wide5 { f0: Padded<FixedBytes<257>, 513> });
rec!(Wide5 { f0: Padded<FixedBytes<257>, 513> });
nolens!(Wide5);
ty_struct!(Wide6 { f0: u8, f1: FixedBytes<520>, f2: Dynamic<u16, Bytes>, f3: FixedBytes<300> });
rec!(Wide6 { f0: u8, f1: FixedBytes<520>, f2: Dynamic<u16, Bytes>, f3: FixedBytes<300> });
nolens!(Wide6);
ty_struct!(Wide7(0: FixedBytes<300>, 1: Option<FixedBytes<300>>, 2: N));
rec!(Wide7(0: FixedBytes<300>, 1: Option<FixedBytes<300>>, 2: N));
nolens!(Wide7);
ty_struct!(Wide8 { f0: Padded<u8, 1030>, f1: FixSeq<u64, 40>, f2: FixSeq<FixedBytes<9>, 30> });
rec!(Wide8 { f0: Padded<u8, 1030>, f1: FixSeq<u64, 40>, f2: FixSeq<FixedBytes<9>, 30> });
nolens!(Wide8);
ty_struct!(Wide9(0: FixSeq<u32, 64>, 1: i31, 2: RWide));
rec!(Wide9(0: FixSeq<u32, 64>, 1: i31, 2: RWide));
nolens!(Wide9);
ty_struct!(Many0 { _q0: bool, xe1: u32, xe2: FixedBytes<1>, aw3: RangedInt<u8, 3, 200>, zw4: u32, ze5: u16, xq6: u8, yw7: u16, bq8: Dynamic<u8, Bytes>, ce9: RangedInt<u8, 3, 200>, zw10: i8, ye11: i8, _w12: u8, xe13: i8, _q14: RangedInt<u8, 3, 200>, yq15: u8, bw16: FixedBytes<1>, aq17: Dynamic<u8, Bytes>, bw18: bool, _e19: u16, yq20: bool, bw21: FixedBytes<1>, yw22: u8, bq23: Option<u8>, yw24: N, ce25: RangedInt<u8, 3, 200> });
rec!(Many0 { _q0: bool, xe1: u32, xe2: FixedBytes<1>, aw3: RangedInt<u8, 3, 200>, zw4: u32, ze5: u16, xq6: u8, yw7: u16, bq8: Dynamic<u8, Bytes>, ce9: RangedInt<u8, 3, 200>, zw10: i8, ye11: i8, _w12: u8, xe13: i8, _q14: RangedInt<u8, 3, 200>, yq15: u8, bw16: FixedBytes<1>, aq17: Dynamic<u8, Bytes>, bw18: bool, _e19: u16, yq20: bool, bw21: FixedBytes<1>, yw22: u8, bq23: Option<u8>, yw24: N, ce25: RangedInt<u8, 3, 200> });
nolens!(Many0);
ty_struct!(Many1 { be0: RangedInt<u8, 3, 200>, _q1: bool, yw2: i8, _q3: i8, bw4: u16, ye5: u32, _w6: u16, aq7: u8, bq8: bool, cw9: FixedBytes<1>, ce10: u16, xe11: RangedInt<u8, 3, 200>, yw12: RangedInt<u8, 3, 200>, zw13: u8, yq14: u32, yw15: u16, xe16: u16, xq17: i31, zq18: u32, zq19: i31, xe20: u16, bq21: RangedInt<u8, 3, 200>, xw22: i31, yw23: FixedBytes<1>, cw24: bool, _w25: u32, xw26: i31, aq27: bool, ae28: RangedInt<u8, 3, 200>, ae29: i31, aq30: u8, xq31: u8, cq32: bool });
rec!(Many1 { be0: RangedInt<u8, 3, 200>, _q1: bool, yw2: i8, _q3: i8, bw4: u16, ye5: u32, _w6: u16, aq7: u8, bq8: bool, cw9: FixedBytes<1>, ce10: u16, xe11: RangedInt<u8, 3, 200>, yw12: RangedInt<u8, 3, 200>, zw13: u8, yq14: u32, yw15: u16, xe16: u16, xq17: i31, zq18: u32, zq19: i31, xe20: u16, bq21: RangedInt<u8, 3, 200>, xw22: i31, yw23: FixedBytes<1>, cw24: bool, _w25: u32, xw26: i31, aq27: bool, ae28: RangedInt<u8, 3, 200>, ae29: i31, aq30: u8, xq31: u8, cq32: bool });
lens!(Many1: RangedInt<u8, 3, 200>, bool, i8, i8, u16, u32, u16, u8, bool, FixedBytes<1>, u16, RangedInt<u8, 3, 200>, RangedInt<u8, 3, 200>, u8, u32, u16, u16, i31, u32, i31, u16, RangedInt<u8, 3, 200>, i31, FixedBytes<1>, bool, u32, i31, bool, RangedInt<u8, 3, 200>, i31, u8, u8, bool);
ty_struct!(Many2(0: i31, 1: u32, 2: u32, 3: u8, 4: Option<u8>, 5: i31, 6: FixedBytes<1>, 7: bool, 8: i31, 9: N, 10: u32, 11: i8, 12: Dynamic<u8, Bytes>, 13: Option<u8>, 14: u16, 15: u16, 16: bool, 17: i31, 18: bool, 19: i31, 20: i8, 21: Dynamic<u8, Bytes>, 22: Option<u8>, 23: Dynamic<u8, Bytes>, 24: u8, 25: bool, 26: RangedInt<u8, 3, 200>, 27: u32, 28: bool, 29: u16, 30: u16, 31: N, 32: u16, 33: u8, 34: bool, 35: Dynamic<u8, Bytes>, 36: i8, 37: i31, 38: u16, 39: u16));
rec!(Many2(0: i31, 1: u32, 2: u32, 3: u8, 4: Option<u8>, 5: i31, 6: FixedBytes<1>, 7: bool, 8: i31, 9: N, 10: u32, 11: i8, 12: Dynamic<u8, Bytes>, 13: Option<u8>, 14: u16, 15: u16, 16: bool, 17: i31, 18: bool, 19: i31, 20: i8, 21: Dynamic<u8, Bytes>, 22: Option<u8>, 23: Dynamic<u8, Bytes>, 24: u8, 25: bool, 26: RangedInt<u8, 3, 200>, 27: u32, 28: bool, 29: u16, 30: u16, 31: N, 32: u16, 33: u8, 34: bool, 35: Dynamic<u8, Bytes>, 36: i8, 37: i31, 38: u16, 39: u16));
nolens!(Many2);
ty_struct!(Many3 { _e0: u8, xw1: i8, _q2: Dynamic<u8, Bytes>, ae3: FixedBytes<1>, bq4: Option<u8>, ae5: u16, _q6: u8, zq7: bool, zw8: u32, bw9: u32, zw10: FixedBytes<1>, bq11: bool, _q12: u32, ze13: u8, ze14: i8, yq15: Option<u8>, _e16: i31, aw17: RangedInt<u8, 3, 200>, _q18: Option<u8>, _w19: u32, bq20: N, xq21: u16, zq22: u16, bq23: u16, aq24: u16, aq25: u16, xe26: i31, _w27: bool, zw28: u32, be29: Option<u8>, cw30: N, xe31: N, zw32: N, xe33: Option<u8>, _q34: N, bq35: u32, ye36: u16, bw37: Option<u8>, _e38: u32, aq39: i31, _q40: FixedBytes<1>, _e41: u32, zq42: Dynamic<u8, Bytes>, _w43: bool, ye44: FixedBytes<1>, yq45: bool, bw46: i31, aw47: u16, ce48: Dynamic<u8, Bytes>, bq49: bool, aw50: bool, xe51: u8, yw52: Dynamic<u8, Bytes>, xq53: N, zq54: N, aq55: FixedBytes<1>, _q56: u32, aq57: N, _q58: FixedBytes<1>, yq59: N, bw60: FixedBytes<1>, yw61: u32, aw62: RangedInt<u8, 3, 200>, xe63: Option<u8>, bq64: FixedBytes<1> });
rec!(Many3 { _e0: u8, xw1: i8, _q2: Dynamic<u8, Bytes>, ae3: FixedBytes<1>, bq4: Option<u8>, ae5: u16, _q6: u8, zq7: bool, zw8: u32, bw9: u32, zw10: FixedBytes<1>, bq11: bool, _q12: u32, ze13: u8, ze14: i8, yq15: Option<u8>, _e16: i31, aw17: RangedInt<u8, 3, 200>, _q18: Option<u8>, _w19: u32, bq20: N, xq21: u16, zq22: u16, bq23: u16, aq24: u16, aq25: u16, xe26: i31, _w27: bool, zw28: u32, be29: Option<u8>, cw30: N, xe31: N, zw32: N, xe33: Option<u8>, _q34: N, bq35: u32, ye36: u16, bw37: Option<u8>, _e38: u32, aq39: i31, _q40: FixedBytes<1>, _e41: u32, zq42: Dynamic<u8, Bytes>, _w43: bool, ye44: FixedBytes<1>, yq45: bool, bw46: i31, aw47: u16, ce48: Dynamic<u8, Bytes>, bq49: bool, aw50: bool, xe51: u8, yw52: Dynamic<u8, Bytes>, xq53: N, zq54: N, aq55: FixedBytes<1>, _q56: u32, aq57: N, _q58: FixedBytes<1>, yq59: N, bw60: FixedBytes<1>, yw61: u32, aw62: RangedInt<u8, 3, 200>, xe63: Option<u8>, bq64: FixedBytes<1> });
nolens!(Many3);
ty_struct!(Many4(0: u32, 1: i8, 2: u8, 3: u8, 4: u16, 5: u32, 6: RangedInt<u8, 3, 200>, 7: i8, 8: u32, 9: u32, 10: bool, 11: i8, 12: i31, 13: u8, 14: u32, 15: u32, 16: u32, 17: i31, 18: bool, 19: i31, 20: i8, 21: bool, 22: i31, 23: u16, 24: RangedInt<u8, 3, 200>, 25: bool, 26: FixedBytes<1>, 27: FixedBytes<1>, 28: u16, 29: i8, 30: i31, 31: u8, 32: u32, 33: FixedBytes<1>, 34: FixedBytes<1>, 35: u8, 36: u32, 37: i8, 38: u16, 39: bool, 40: FixedBytes<1>, 41: u16, 42: u8, 43: u8, 44: RangedInt<u8, 3, 200>, 45: u8, 46: bool, 47: u32, 48: FixedBytes<1>, 49: RangedInt<u8, 3, 200>, 50: RangedInt<u8, 3, 200>, 51: u32, 52: u32, 53: RangedInt<u8, 3, 200>, 54: bool, 55: u16, 56: u32, 57: i31, 58: FixedBytes<1>, 59: i31, 60: i8, 61: u32, 62: u8, 63: u8, 64: RangedInt<u8, 3, 200>, 65: bool, 66: u16, 67: u16, 68: RangedInt<u8, 3, 200>, 69: FixedBytes<1>));
rec!(Many4(0: u32, 1: i8, 2: u8, 3: u8, 4: u16, 5: u32, 6: RangedInt<u8, 3, 200>, 7: i8, 8: u32, 9: u32, 10: bool, 11: i8, 12: i31, 13: u8, 14: u32, 15: u32, 16: u32, 17: i31, 18: bool, 19: i31, 20: i8, 21: bool, 22: i31, 23: u16, 24: RangedInt<u8, 3, 200>, 25: bool, 26: FixedBytes<1>, 27: FixedBytes<1>, 28: u16, 29: i8, 30: i31, 31: u8, 32: u32, 33: FixedBytes<1>, 34: FixedBytes<1>, 35: u8, 36: u32, 37: i8, 38: u16, 39: bool, 40: FixedBytes<1>, 41: u16, 42: u8, 43: u8, 44: RangedInt<u8, 3, 200>, 45: u8, 46: bool, 47: u32, 48: FixedBytes<1>, 49: RangedInt<u8, 3, 200>, 50: RangedInt<u8, 3, 200>, 51: u32, 52: u32, 53: RangedInt<u8, 3, 200>, 54: bool, 55: u16, 56: u32, 57: i31, 58: FixedBytes<1>, 59: i31, 60: i8, 61: u32, 62: u8, 63: u8, 64: RangedInt<u8, 3, 200>, 65: bool, 66: u16, 67: u16, 68: RangedInt<u8, 3, 200>, 69: FixedBytes<1>));
lens!(Many4: u32, i8, u8, u8, u16, u32, RangedInt<u8, 3, 200>, i8, u32, u32, bool, i8, i31, u8, u32, u32, u32, i31, bool, i31, i8, bool, i31, u16, RangedInt<u8, 3, 200>, bool, FixedBytes<1>, FixedBytes<1>, u16, i8, i31, u8, u32, FixedBytes<1>, FixedBytes<1>, u8, u32, i8, u16, bool, FixedBytes<1>, u16, u8, u8, RangedInt<u8, 3, 200>, u8, bool, u32, FixedBytes<1>, RangedInt<u8, 3, 200>, RangedInt<u8, 3, 200>, u32, u32, RangedInt<u8, 3, 200>, bool, u16, u32, i31, FixedBytes<1>, i31, i8, u32, u8, u8, RangedInt<u8, 3, 200>, bool, u16, u16, RangedInt<u8, 3, 200>, FixedBytes<1>);

pub fn records() -> Vec<RecOps> {
    vec![RecOps::of::<R00>(), RecOps::of::<R01>(), RecOps::of::<R02>(), RecOps::of::<R03>(), RecOps::of::<R04>(), RecOps::of::<P>(), RecOps::of::<R06>(), RecOps::of::<R07>(), RecOps::of::<U>(), RecOps::of::<R09>(), RecOps::of::<R10>(), RecOps::of::<T>(), RecOps::of::<R12>(), RecOps::of::<R13>(), RecOps::of::<R14>(), RecOps::of::<R15>(), RecOps::of::<R16>(), RecOps::of::<R17>(), RecOps::of::<R18>(), RecOps::of::<R19>(), RecOps::of::<R20>(), RecOps::of::<R21>(), RecOps::of::<R22>(), RecOps::of::<R23>(), RecOps::of::<R24>(), RecOps::of::<R25>(), RecOps::of::<R26>(), RecOps::of::<R27>(), RecOps::of::<R28>(), RecOps::of::<R29>(), RecOps::of::<R30>(), RecOps::of::<R31>(), RecOps::of::<R32>(), RecOps::of::<R33>(), RecOps::of::<R34>(), RecOps::of::<R35>(), RecOps::of::<R36>(), RecOps::of::<R37>(), RecOps::of::<R38>(), RecOps::of::<R39>(), RecOps::of::<R40>(), RecOps::of::<R41>(), RecOps::of::<R42>(), RecOps::of::<R43>(), RecOps::of::<R44>(), RecOps::of::<R45>(), RecOps::of::<R46>(), RecOps::of::<R47>(), RecOps::of::<R48>(), RecOps::of::<R49>(), RecOps::of::<R50>(), RecOps::of::<R51>(), RecOps::of::<R52>(), RecOps::of::<R53>(), RecOps::of::<R54>(), RecOps::of::<R55>(), RecOps::of::<R56>(), RecOps::of::<R57>(), RecOps::of::<R58>(), RecOps::of::<R59>(), RecOps::of::<R60>(), RecOps::of::<R61>(), RecOps::of::<R62>(), RecOps::of::<R63>(), RecOps::of::<R64>(), RecOps::of::<R65>(), RecOps::of::<R66>(), RecOps::of::<R67>(), RecOps::of::<R68>(), RecOps::of::<R69>(), RecOps::of::<R70>(), RecOps::of::<R71>(), RecOps::of::<EmptyUnitFix>(), RecOps::of::<EmptyUnitEst>(), RecOps::of::<EmptyTupleFix>(), RecOps::of::<EmptyTupleEst>(), RecOps::of::<EmptyBracesFix>(), RecOps::of::<EmptyBracesEst>(), RecOps::of::<Wide0>(), RecOps::of::<Wide1>(), RecOps::of::<Wide2>(), RecOps::of::<Wide3>(), RecOps::of::<Wide4>(), RecOps::of::<Wide5>(), RecOps::of::<Wide6>(), RecOps::of::<Wide7>(), RecOps::of::<Wide8>(), RecOps::of::<Wide9>(), RecOps::of::<Many0>(), RecOps::of::<Many1>(), RecOps::of::<Many2>(), RecOps::of::<Many3>(), RecOps::of::<Many4>()]
}
