//! Bridge between the library's types and the model's `Schema`/`Value`.

use crate::model::{Pref, Schema, Value};
use tedium::conv::EncodeLength;
use tedium::dynamic::LenPref;
use tedium::*;

pub trait Ty: Encode + Decode + std::fmt::Debug + Clone + PartialEq {
    fn schema() -> Schema;
    fn to_value(&self) -> Value;
    fn from_value(v: &Value) -> Self;
}

pub fn name<T>() -> String {
    short(std::any::type_name::<T>())
}

/// strip module paths from a type name
pub fn short(s: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for ch in s.chars() {
        if ch.is_alphanumeric() || ch == '_' || ch == ':' {
            word.push(ch);
        } else {
            out.push_str(word.rsplit("::").next().unwrap());
            word.clear();
            out.push(ch);
        }
    }
    out.push_str(word.rsplit("::").next().unwrap());
    out.replace(' ', "")
}

fn bx(s: Schema) -> Box<Schema> {
    Box::new(s)
}

fn int_of(v: &Value) -> i128 {
    match v {
        Value::Int(x) => *x,
        v => panic!("harness: int expected, got {:?}", v),
    }
}
fn bytes_of(v: &Value) -> &[u8] {
    match v {
        Value::Bytes(b) => b,
        v => panic!("harness: bytes expected, got {:?}", v),
    }
}
fn list_of(v: &Value) -> &[Value] {
    match v {
        Value::List(b) => b,
        v => panic!("harness: list expected, got {:?}", v),
    }
}

impl Ty for () {
    fn schema() -> Schema {
        Schema::Unit
    }
    fn to_value(&self) -> Value {
        Value::Unit
    }
    fn from_value(_: &Value) {}
}

impl Ty for bool {
    fn schema() -> Schema {
        Schema::Bool
    }
    fn to_value(&self) -> Value {
        Value::Bool(*self)
    }
    fn from_value(v: &Value) -> Self {
        matches!(v, Value::Bool(true))
    }
}

macro_rules! ty_int {
    ($($t:ty, $w:expr, $s:expr);+) => {$(
        impl Ty for $t {
            fn schema() -> Schema { Schema::Int($w, $s) }
            fn to_value(&self) -> Value { Value::Int(*self as i128) }
            fn from_value(v: &Value) -> Self { int_of(v) as $t }
        }
    )+}
}
ty_int!(u8,1,false; i8,1,true; u16,2,false; i16,2,true; u32,4,false; i32,4,true; u64,8,false; i64,8,true);

macro_rules! ty_rint {
    ($($t:ty, $w:expr, $s:expr);+) => {$(
        impl<const MIN: i32, const MAX: i32> Ty for RangedInt<$t, MIN, MAX> {
            fn schema() -> Schema { Schema::RInt($w, $s, MIN as i128, MAX as i128) }
            fn to_value(&self) -> Value { Value::Int(self.to_i32() as i128) }
            fn from_value(v: &Value) -> Self { Self::try_from_i32(int_of(v) as i32).expect("in-range value refused") }
        }
    )+}
}
ty_rint!(u8,1,false; i8,1,true; u16,2,false; i16,2,true; u32,4,false; i32,4,true);

impl Ty for f64 {
    fn schema() -> Schema {
        Schema::F64
    }
    fn to_value(&self) -> Value {
        Value::F64(self.to_bits())
    }
    fn from_value(v: &Value) -> Self {
        match v {
            Value::F64(b) => f64::from_bits(*b),
            _ => panic!("harness: f64"),
        }
    }
}

impl<const A: u64, const B: u64> Ty for RangedFloat<A, B> {
    fn schema() -> Schema {
        Schema::RF64(f64::from_bits(A), f64::from_bits(B))
    }
    fn to_value(&self) -> Value {
        Value::F64(f64::from(*self).to_bits())
    }
    fn from_value(v: &Value) -> Self {
        Self::try_from_f64(f64::from_value(v)).expect("in-range float refused")
    }
}

impl Ty for N {
    fn schema() -> Schema {
        Schema::N
    }
    fn to_value(&self) -> Value {
        Value::Big(num_bigint::BigInt::from(self.0.clone()))
    }
    fn from_value(v: &Value) -> Self {
        match v {
            Value::Big(x) => N(x.magnitude().clone()),
            _ => panic!("harness: N"),
        }
    }
}
impl Ty for Z {
    fn schema() -> Schema {
        Schema::Z
    }
    fn to_value(&self) -> Value {
        Value::Big(self.0.clone())
    }
    fn from_value(v: &Value) -> Self {
        match v {
            Value::Big(x) => Z(x.clone()),
            _ => panic!("harness: Z"),
        }
    }
}

impl Ty for String {
    fn schema() -> Schema {
        Schema::Str
    }
    fn to_value(&self) -> Value {
        Value::Bytes(self.as_bytes().to_vec())
    }
    fn from_value(v: &Value) -> Self {
        String::from_utf8(bytes_of(v).to_vec()).unwrap()
    }
}
impl Ty for Vec<u8> {
    fn schema() -> Schema {
        Schema::Blob
    }
    fn to_value(&self) -> Value {
        Value::Bytes(self.clone())
    }
    fn from_value(v: &Value) -> Self {
        bytes_of(v).to_vec()
    }
}
impl Ty for Bytes {
    fn schema() -> Schema {
        Schema::Blob
    }
    fn to_value(&self) -> Value {
        Value::Bytes(self.to_vec())
    }
    fn from_value(v: &Value) -> Self {
        Bytes::from(bytes_of(v).to_vec())
    }
}
impl<const K: usize> Ty for FixedBytes<K> {
    fn schema() -> Schema {
        Schema::FBytes(K)
    }
    fn to_value(&self) -> Value {
        Value::Bytes(self.to_vec())
    }
    fn from_value(v: &Value) -> Self {
        FixedBytes::try_from(bytes_of(v)).unwrap()
    }
}
impl<const K: usize> Ty for FixedString<K> {
    fn schema() -> Schema {
        Schema::FStr(K)
    }
    fn to_value(&self) -> Value {
        // the only total accessor of the raw contents is its encoding into a plain vector
        Value::Bytes(self.to_bytes())
    }
    fn from_value(v: &Value) -> Self {
        FixedString::try_from_bytes(bytes_of(v)).unwrap()
    }
}

impl<T: Ty> Ty for Option<T> {
    fn schema() -> Schema {
        Schema::Opt(bx(T::schema()))
    }
    fn to_value(&self) -> Value {
        Value::Opt(self.as_ref().map(|x| Box::new(x.to_value())))
    }
    fn from_value(v: &Value) -> Self {
        match v {
            Value::Opt(x) => x.as_ref().map(|x| T::from_value(x)),
            _ => panic!("harness: opt"),
        }
    }
}
impl<T: Ty> Ty for Nullable<T> {
    fn schema() -> Schema {
        Schema::Nullable(bx(T::schema()))
    }
    fn to_value(&self) -> Value {
        Value::Opt(self.as_inner().as_ref().map(|x| Box::new(x.to_value())))
    }
    fn from_value(v: &Value) -> Self {
        Nullable::from(Option::<T>::from_value(v))
    }
}
impl<T: Ty, const K: usize> Ty for Padded<T, K> {
    fn schema() -> Schema {
        Schema::Padded(bx(T::schema()), K)
    }
    fn to_value(&self) -> Value {
        self.as_inner().to_value()
    }
    fn from_value(v: &Value) -> Self {
        Padded::new(T::from_value(v))
    }
}

pub trait HasPref: LenPref {
    const P: Pref;
}
impl HasPref for u8 {
    const P: Pref = Pref::P8;
}
impl HasPref for u16 {
    const P: Pref = Pref::P16;
}
impl HasPref for u30 {
    const P: Pref = Pref::P30;
}

impl<S: HasPref, T: Ty + EncodeLength> Ty for Dynamic<S, T> {
    fn schema() -> Schema {
        Schema::Dyn(S::P, bx(T::schema()))
    }
    fn to_value(&self) -> Value {
        self.as_ref().to_value()
    }
    fn from_value(v: &Value) -> Self {
        Dynamic::new(T::from_value(v))
    }
}
impl<T: Ty, const K: usize> Ty for VPadded<T, K> {
    fn schema() -> Schema {
        Schema::VPad(bx(T::schema()), K)
    }
    fn to_value(&self) -> Value {
        self.clone().into_inner().to_value()
    }
    fn from_value(v: &Value) -> Self {
        VPadded::new(T::from_value(v))
    }
}
impl<T: Ty> Ty for Sequence<T> {
    fn schema() -> Schema {
        Schema::Seq(bx(T::schema()))
    }
    fn to_value(&self) -> Value {
        Value::List(self.as_slice().iter().map(|x| x.to_value()).collect())
    }
    fn from_value(v: &Value) -> Self {
        Sequence::from(list_of(v).iter().map(T::from_value).collect::<Vec<T>>())
    }
}
impl<T: Ty, const K: usize> Ty for FixSeq<T, K> {
    fn schema() -> Schema {
        Schema::FixSeq(bx(T::schema()), K)
    }
    fn to_value(&self) -> Value {
        Value::List(self.iter().map(|x| x.to_value()).collect())
    }
    fn from_value(v: &Value) -> Self {
        let xs: Vec<T> = list_of(v).iter().map(T::from_value).collect();
        FixSeq::try_from(xs).expect("exact count refused")
    }
}
impl<T: Ty, const K: usize> Ty for LimSeq<T, K> {
    fn schema() -> Schema {
        Schema::LimSeq(bx(T::schema()), K)
    }
    fn to_value(&self) -> Value {
        Value::List(self.iter().map(|x| x.to_value()).collect())
    }
    fn from_value(v: &Value) -> Self {
        let xs: Vec<T> = list_of(v).iter().map(T::from_value).collect();
        LimSeq::try_from(xs).expect("count within bound refused")
    }
}
impl<T: Ty> Ty for AutoBox<T> {
    fn schema() -> Schema {
        T::schema()
    }
    fn to_value(&self) -> Value {
        self.as_inner().to_value()
    }
    fn from_value(v: &Value) -> Self {
        AutoBox::new(T::from_value(v))
    }
}

/// Implements `Ty` for a record declared with the derive macros.
#[macro_export]
macro_rules! ty_struct {
    ($t:ident { $($f:ident : $ft:ty),* }) => {
        impl $crate::ty::Ty for $t {
            fn schema() -> $crate::model::Schema {
                $crate::model::Schema::Struct(vec![$(<$ft as $crate::ty::Ty>::schema()),*])
            }
            fn to_value(&self) -> $crate::model::Value {
                $crate::model::Value::Struct(vec![$(<$ft as $crate::ty::Ty>::to_value(&self.$f)),*])
            }
            fn from_value(v: &$crate::model::Value) -> Self {
                let $crate::model::Value::Struct(xs) = v else { panic!("harness: struct") };
                let mut it = xs.iter();
                let _ = &mut it;
                $t { $($f: <$ft as $crate::ty::Ty>::from_value(it.next().unwrap())),* }
            }
        }
    };
    ($t:ident ( $($ix:tt : $ft:ty),* )) => {
        impl $crate::ty::Ty for $t {
            fn schema() -> $crate::model::Schema {
                $crate::model::Schema::Struct(vec![$(<$ft as $crate::ty::Ty>::schema()),*])
            }
            fn to_value(&self) -> $crate::model::Value {
                $crate::model::Value::Struct(vec![$(<$ft as $crate::ty::Ty>::to_value(&self.$ix)),*])
            }
            fn from_value(v: &$crate::model::Value) -> Self {
                let $crate::model::Value::Struct(xs) = v else { panic!("harness: struct") };
                let mut it = xs.iter();
                let _ = &mut it;
                $t ( $(<$ft as $crate::ty::Ty>::from_value(it.next().unwrap())),* )
            }
        }
    };
    ($t:ident) => {
        impl $crate::ty::Ty for $t {
            fn schema() -> $crate::model::Schema { $crate::model::Schema::Struct(vec![]) }
            fn to_value(&self) -> $crate::model::Value { $crate::model::Value::Struct(vec![]) }
            fn from_value(_: &$crate::model::Value) -> Self { $t }
        }
    };
}

/// Implements `Ty` for an enumeration declared with `cstyle!`
#[macro_export]
macro_rules! ty_cstyle {
    ($t:ident, $w:expr, { $($v:ident = $d:expr),+ }) => {
        impl $crate::ty::Ty for $t {
            fn schema() -> $crate::model::Schema {
                $crate::model::Schema::Enum($w, vec![$(($d as u64, $crate::model::Schema::Unit)),+])
            }
            fn to_value(&self) -> $crate::model::Value {
                $crate::model::Value::Enum(match self { $($t::$v => $d as u64),+ }, Box::new($crate::model::Value::Unit))
            }
            fn from_value(v: &$crate::model::Value) -> Self {
                match v {
                    $($crate::model::Value::Enum(d, _) if *d == $d as u64 => $t::$v,)+
                    v => panic!("harness: enum {:?}", v),
                }
            }
        }
    };
}

/// Implements `Ty` for a tagged union declared with `data!`, whose payload
/// records must implement `Ty` themselves
#[macro_export]
macro_rules! ty_data {
    ($t:ident, $m:ident, $w:expr, { $($d:expr => $v:ident),+ }) => {
        impl $crate::ty::Ty for $t {
            fn schema() -> $crate::model::Schema {
                $crate::model::Schema::Enum($w, vec![$(($d as u64, <$m::$v as $crate::ty::Ty>::schema())),+])
            }
            fn to_value(&self) -> $crate::model::Value {
                match self { $($t::$v(x) => $crate::model::Value::Enum($d as u64, Box::new(<$m::$v as $crate::ty::Ty>::to_value(x)))),+ }
            }
            fn from_value(v: &$crate::model::Value) -> Self {
                match v {
                    $($crate::model::Value::Enum(d, x) if *d == $d as u64 => $t::$v(<$m::$v as $crate::ty::Ty>::from_value(x)),)+
                    v => panic!("harness: enum {:?}", v),
                }
            }
        }
    };
}
