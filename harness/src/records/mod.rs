//! Generated record types deriving the codec traits (tools/gen_records.py), with
//! access to their fields one by one.

use mon::model::{Schema, Value};
use mon::ops::TyOps;
use mon::ty::{name, Ty};
use mon::ty_struct;
use mon::universe::*;
use tedium::*;

include!("recs_items.inc");

/// a record type seen as the list of its fields
pub trait Rec: Ty + Estimable + 'static {
    fn fields() -> Vec<TyOps>;
    fn parts(&self) -> Vec<Box<dyn mon::ops::Obj>>;
    /// the record's own fixed length and those of its fields, where the record derives `FixedLength`
    fn lens() -> Option<(usize, Vec<usize>)>;
}

trait Lens {
    const LENS: Option<(usize, &'static [usize])>;
}

#[allow(unused_macros)]
macro_rules! rec {
    ($t:ident { $($f:ident : $ft:ty),* }) => { rec!(@ $t, [$($f),*], [$($ft),*]); };
    ($t:ident ( $($f:tt : $ft:ty),* )) => { rec!(@ $t, [$($f),*], [$($ft),*]); };
    ($t:ident) => { rec!(@ $t, [], []); };
    (@ $t:ident, [$($f:tt),*], [$($ft:ty),*]) => {
        impl Rec for $t {
            fn fields() -> Vec<TyOps> { vec![$(TyOps::of::<$ft>()),*] }
            fn parts(&self) -> Vec<Box<dyn mon::ops::Obj>> { vec![$(Box::new(self.$f.clone()) as Box<dyn mon::ops::Obj>),*] }
            fn lens() -> Option<(usize, Vec<usize>)> { <$t as Lens>::LENS.map(|(a, b)| (a, b.to_vec())) }
        }
    };
}
macro_rules! lens {
    ($t:ident : $($ft:ty),*) => {
        impl Lens for $t {
            const LENS: Option<(usize, &'static [usize])> = Some((<$t as FixedLength>::LEN, &[$(<$ft as FixedLength>::LEN),*]));
        }
    };
}
macro_rules! nolens {
    ($t:ident) => {
        impl Lens for $t {
            const LENS: Option<(usize, &'static [usize])> = None;
        }
    };
}

pub struct RecOps {
    pub name: String,
    pub schema: Schema,
    pub whole: TyOps,
    pub fields: Vec<TyOps>,
    pub lens: Option<(usize, Vec<usize>)>,
    /// builds the record and hands out the fields it then holds
    pub parts: fn(&Value) -> (Box<dyn mon::ops::Obj>, Vec<Box<dyn mon::ops::Obj>>),
}

impl RecOps {
    pub fn of<T: Rec>() -> RecOps {
        RecOps {
            name: name::<T>(),
            schema: T::schema(),
            whole: TyOps::of::<T>(),
            fields: T::fields(),
            lens: T::lens(),
            parts: |v| {
                let x = T::from_value(v);
                let p = x.parts();
                (Box::new(x), p)
            },
        }
    }
}

include!("recs_ty.inc");
