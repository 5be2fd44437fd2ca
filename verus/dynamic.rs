// Contracts on the dynamically typed values of /repo: what they report as their type, what they
// convert from and to, and when they are equal. Extracted as core.rs is.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, non_snake_case)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;

verus! {

// ======================================================================================
// Trusted contracts of the standard library
// ======================================================================================
pub mod stub {
    use vstd::prelude::*;
    /// stands for `unreachable!(..)`: must be proved unreachable
    #[verifier::external_body]
    pub fn v_unreachable() -> ! requires false { panic!() }
    #[verifier::external_body]
    pub fn v_panics(Ghost(allowed): Ghost<bool>) -> ! requires allowed { panic!() }

    pub trait Default: Sized {
        spec fn is_default(&self) -> bool;
        fn default() -> (r: Self) ensures r.is_default();
    }
    impl<T> Default for core::marker::PhantomData<T> {
        open spec fn is_default(&self) -> bool { true }
        #[verifier::external_body]
        fn default() -> Self { core::marker::PhantomData }
    }
    impl Default for i32 {
        open spec fn is_default(&self) -> bool { *self == 0 }
        fn default() -> i32 { 0 }
    }
    /// `PartialEq`: `eqv` is what `==` means on these types
    pub trait PEq<R: ?Sized> {
        spec fn eqv(&self, o: &R) -> bool;
        fn eq(&self, o: &R) -> (ret: bool) ensures ret == self.eqv(o);
    }
    pub fn v_eq<A: PEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (ret: bool)
        ensures ret == a.eqv(b)
    { PEq::eq(a, b) }
    impl<A: PEq<B> + ?Sized, B: ?Sized> PEq<&B> for &A {
        open spec fn eqv(&self, o: &&B) -> bool { (**self).eqv(*o) }
        fn eq(&self, o: &&B) -> bool { PEq::eq(*self, *o) }
    }
    impl<A: PEq<B> + ?Sized, B: ?Sized> PEq<&mut B> for &mut A {
        open spec fn eqv(&self, o: &&mut B) -> bool { (**self).eqv(*o) }
        fn eq(&self, o: &&mut B) -> bool { PEq::eq(&**self, &**o) }
    }
    impl PEq<isize> for isize {
        open spec fn eqv(&self, o: &isize) -> bool { *self == *o }
        fn eq(&self, o: &isize) -> bool { *self == *o }
    }
    /// equality of vectors and slices is equality of lengths and of elements
    pub open spec fn seq_eqv<T: PEq<T>>(a: Seq<T>, b: Seq<T>) -> bool {
        a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).eqv(&b[i])
    }
    impl<T: PEq<T>> PEq<Vec<T>> for Vec<T> {
        open spec fn eqv(&self, o: &Vec<T>) -> bool { seq_eqv(self@, o@) }
        #[verifier::external_body]
        fn eq(&self, o: &Vec<T>) -> bool { unimplemented!() }
    }
    impl<T: PEq<T>> PEq<[T]> for [T] {
        open spec fn eqv(&self, o: &[T]) -> bool { seq_eqv(self@, o@) }
        #[verifier::external_body]
        fn eq(&self, o: &[T]) -> bool { unimplemented!() }
    }
    impl<T: PEq<T>> PEq<&[T]> for Vec<T> {
        open spec fn eqv(&self, o: &&[T]) -> bool { seq_eqv(self@, o@) }
        #[verifier::external_body]
        fn eq(&self, o: &&[T]) -> bool { unimplemented!() }
    }
    impl<T: PEq<T>> PEq<Vec<T>> for &[T] {
        open spec fn eqv(&self, o: &Vec<T>) -> bool { seq_eqv(self@, o@) }
        #[verifier::external_body]
        fn eq(&self, o: &Vec<T>) -> bool { unimplemented!() }
    }
    /// `std::ops::AddAssign`
    pub trait AddAssign<R> {
        spec fn added(a: &Self, r: R, b: &Self) -> bool;
        fn add_assign(&mut self, r: R) ensures Self::added(old(self), r, final(self));
    }
    /// `std::iter::Iterator`, for iterators that end: `rem` is what is still to come
    pub trait Iterator: Sized {
        type Item;
        spec fn rem(&self) -> Seq<Self::Item>;
        fn next(&mut self) -> (ret: Option<Self::Item>)
            ensures
                old(self).rem().len() == 0 ==> ret is None && final(self).rem() == old(self).rem(),
                old(self).rem().len() > 0 ==> ret == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().skip(1);
    }
    pub trait IntoIterator: Sized {
        type IntoIter: Iterator;
        #[verifier::prophetic]
        spec fn into_spec(self, it: Self::IntoIter) -> bool;
        fn into_iter(self) -> (ret: Self::IntoIter)
            ensures self.into_spec(ret);
    }
    impl<I: Iterator> IntoIterator for I {
        type IntoIter = I;
        open spec fn into_spec(self, it: I) -> bool { it == self }
        fn into_iter(self) -> I { self }
    }
    /// `std::slice::IterMut`: hands out a reference to each element in turn
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct SliceIterMut<'a, T> { _p: core::marker::PhantomData<&'a mut T> }
    impl<'a, T> SliceIterMut<'a, T> { pub uninterp spec fn left(&self) -> Seq<&'a mut T>; }
    impl<'a, T> Iterator for SliceIterMut<'a, T> {
        type Item = &'a mut T;
        open spec fn rem(&self) -> Seq<&'a mut T> { self.left() }
        #[verifier::external_body]
        fn next(&mut self) -> Option<&'a mut T> { unimplemented!() }
    }
    /// an iterator that is dropped gives up the references it has not handed out
    pub broadcast axiom fn axiom_iter_mut_resolved<'a, T>(it: SliceIterMut<'a, T>, i: int)
        ensures has_resolved(it) && 0 <= i < it.left().len() ==> has_resolved(#[trigger] it.left()[i]);
    impl<'a, T> IntoIterator for &'a mut [T] {
        type IntoIter = SliceIterMut<'a, T>;
        #[verifier::prophetic]
        open spec fn into_spec(self, it: SliceIterMut<'a, T>) -> bool {
            &&& it.left().len() == (*self)@.len() == (*final(self))@.len()
            &&& forall|i: int| 0 <= i < it.left().len() ==> *(#[trigger] it.left()[i]) == (*self)@[i] && *final(it.left()[i]) == (*final(self))@[i]
        }
        #[verifier::external_body]
        fn into_iter(self) -> SliceIterMut<'a, T> { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct VecIntoIter<T> { _p: core::marker::PhantomData<T> }
    impl<T> VecIntoIter<T> {
        pub uninterp spec fn left(&self) -> Seq<T>;
        /// `Iterator::rev`
        #[verifier::external_body]
        pub fn rev(self) -> (r: VecIntoIter<T>) ensures r.left() == self.left().reverse() { unimplemented!() }
    }
    impl<T> Iterator for VecIntoIter<T> {
        type Item = T;
        open spec fn rem(&self) -> Seq<T> { self.left() }
        #[verifier::external_body]
        fn next(&mut self) -> Option<T> { unimplemented!() }
    }
    impl<T> IntoIterator for Vec<T> {
        type IntoIter = VecIntoIter<T>;
        open spec fn into_spec(self, it: VecIntoIter<T>) -> bool { it.left() == self@ }
        #[verifier::external_body]
        fn into_iter(self) -> VecIntoIter<T> { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn v_report() -> crate::eyre::Report { unimplemented!() }
    /// which variant of its enum a value is
    pub trait Discr { spec fn d(&self) -> int; }
    #[verifier::external_body]
    pub fn discriminant_value<T: Discr>(t: &T) -> (r: isize) ensures r == t.d() { unimplemented!() }
}
use stub::*;

pub mod object {
    use vstd::prelude::*;
    pub struct ObjectHandle { pub index: usize, pub generation: u64 }
    impl Copy for ObjectHandle {}
    impl Clone for ObjectHandle { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
}
pub mod contract {
    use vstd::prelude::*;
    pub struct ContractDataHandle { pub index: usize, pub generation: u64 }
    impl Copy for ContractDataHandle {}
    impl Clone for ContractDataHandle { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
    pub mod properties {
        pub mod dynamic { pub use crate::*; pub mod property { pub use crate::*; } pub mod primitive { pub use crate::*; } pub mod __macro { pub use crate::*; } }
        pub mod channels { pub use crate::*; pub mod dyn_channel { pub use crate::*; } pub mod dyn_handle { pub use crate::*; } }
        pub mod states { pub use crate::*; pub mod dyn_handle { pub use crate::*; } }
        pub mod traits { pub use crate::handles::ITpPropertyStatic; }
    }
}
pub use object::ObjectHandle;
pub use contract::ContractDataHandle;

// ======================================================================================
// Base types: what `==` means on them is theirs
// ======================================================================================
//@foreach
pub uninterp spec fn eqv_$V(a: $T, b: $T) -> bool;
impl PEq<$T> for $T {
    open spec fn eqv(&self, o: &$T) -> bool { eqv_$V(*self, *o) }
    #[verifier::external_body]
    fn eq(&self, o: &$T) -> bool { unimplemented!() }
}
/// assumed of the base types: comparing the other way round gives the same
#[verifier::external_body]
pub broadcast proof fn axiom_sym_$V(a: $T, b: $T)
    ensures #[trigger] eqv_$V(a, b) == eqv_$V(b, a)
{}
//@endfor

//@enum tp_client::contract::properties::dynamic::primitive::TpPrimitiveType #[derive(Copy,Clone)]
//@enum tp_client::contract::properties::dynamic::TpPropertyType #[derive(Copy,Clone)]
impl Discr for TpPrimitiveType {
    open spec fn d(&self) -> int { prim_no(*self) }
}
impl Discr for TpPropertyType {
    open spec fn d(&self) -> int { if self is Primitive { 0 } else { 1 } }
}
impl PEq<TpPrimitiveType> for TpPrimitiveType {
    open spec fn eqv(&self, o: &TpPrimitiveType) -> bool { *self == *o }
    //@traitfn tp_client::contract::properties::dynamic::primitive::PartialEq@TpPrimitiveType::eq
    //@eqcalls
    //@end
}
impl PEq<TpPropertyType> for TpPropertyType {
    open spec fn eqv(&self, o: &TpPropertyType) -> bool { *self == *o }
    //@traitfn tp_client::contract::properties::dynamic::PartialEq@TpPropertyType::eq
    //@eqcalls
    //@end
}
pub open spec fn prim_no(p: TpPrimitiveType) -> int {
    match p {
        TpPrimitiveType::U8 => 0, TpPrimitiveType::U16 => 1, TpPrimitiveType::U32 => 2, TpPrimitiveType::U64 => 3,
        TpPrimitiveType::I8 => 4, TpPrimitiveType::I16 => 5, TpPrimitiveType::I32 => 6, TpPrimitiveType::I64 => 7,
        TpPrimitiveType::Bool => 8, TpPrimitiveType::F32 => 9, TpPrimitiveType::F64 => 10, TpPrimitiveType::String => 11,
        TpPrimitiveType::ObjectHandle => 12, TpPrimitiveType::ContractDataHandle => 13,
    }
}
impl TpPropertyType {
    //@fn tp_client::contract::properties::dynamic::TpPropertyType::primitive_type
    //@spec
        ensures ret == (match *self { TpPropertyType::Primitive(p) => p, TpPropertyType::Vec(p) => p })
    //@end
}

// ---- what a static type says about itself ----
pub trait ITpData: Sized { const DATA_TYPE: TpPrimitiveType; }
pub mod consts {
    use super::*;
    //@foreach
    pub mod c_$V {
        use super::*;
        //@const tp_client::contract::properties::traits::ITpData@$T::DATA_TYPE  TpPrimitiveType  ret == TpPrimitiveType::$V
    }
    //@endfor
}
pub struct VecConst<T> { _p: core::marker::PhantomData<T> }
impl<T: ITpData> VecConst<T> {
    //@const tp_client::contract::properties::traits::ITpPropertyStatic@Vec<T>::PROPERTY_TYPE  TpPropertyType  ret == TpPropertyType::Vec(T::DATA_TYPE)
}
pub trait ITpPropertyStaticC { const PROPERTY_TYPE: TpPropertyType; }
pub struct StaticType<T> { _p: core::marker::PhantomData<T> }
impl<T: ITpPropertyStaticC> StaticType<T> {
    //@fn tp_client::contract::properties::traits::ITpProperty@T::prop_type
    //@spec
        ensures ret == T::PROPERTY_TYPE
    //@end
}
pub struct PrimConst<T> { _p: core::marker::PhantomData<T> }
impl<T: ITpData> PrimConst<T> {
    //@const tp_client::contract::properties::traits::ITpPropertyStatic@T::PROPERTY_TYPE  TpPropertyType  ret == TpPropertyType::Primitive(T::DATA_TYPE)
}

// ======================================================================================
// DynTpPrimitive, DynTpVec, DynTpProperty
// ======================================================================================
//@enum tp_client::contract::properties::dynamic::property::DynTpPrimitive
//@enum tp_client::contract::properties::dynamic::property::DynTpVec
//@enum tp_client::contract::properties::dynamic::property::DynTpProperty
impl DynTpPrimitive {
    pub open spec fn prim(self) -> TpPrimitiveType {
        match self {
            //@foreach
            DynTpPrimitive::$V(_) => TpPrimitiveType::$V,
            //@endfor
        }
    }
    //@fn tp_client::contract::properties::dynamic::primitive::DynTpPrimitive::prop_type
    //@spec
        ensures ret == TpPropertyType::Primitive(self.prim())
    //@end
}
impl DynTpVec {
    pub open spec fn prim(self) -> TpPrimitiveType {
        match self {
            //@foreach
            DynTpVec::$V(_) => TpPrimitiveType::$V,
            //@endfor
        }
    }
    //@fn tp_client::contract::properties::dynamic::vec::DynTpVec::prop_type
    //@spec
        ensures ret == TpPropertyType::Vec(self.prim())
    //@end
}
impl DynTpProperty {
    pub open spec fn ptype(self) -> TpPropertyType {
        match self {
            DynTpProperty::Primitive(p) => TpPropertyType::Primitive(p.prim()),
            DynTpProperty::Vec(p) => TpPropertyType::Vec(p.prim()),
        }
    }
    //@fn tp_client::contract::properties::dynamic::property::DynTpProperty::prop_type
    //@spec
        ensures ret == self.ptype()
    //@end
}
pub trait ITpProperty: Sized { spec fn pt(&self) -> TpPropertyType; fn prop_type(&self) -> (ret: TpPropertyType) ensures ret == self.pt(); }
impl ITpProperty for DynTpProperty {
    open spec fn pt(&self) -> TpPropertyType { self.ptype() }
    //@traitfn tp_client::contract::properties::dynamic::property::ITpProperty@DynTpProperty::prop_type
    //@end
}

// ---- equality ----
impl Discr for DynTpPrimitive { open spec fn d(&self) -> int { prim_no(self.prim()) } }
impl Discr for DynTpVec { open spec fn d(&self) -> int { prim_no(self.prim()) } }
impl Discr for DynTpProperty { open spec fn d(&self) -> int { if self is Primitive { 0 } else { 1 } } }

impl PEq<DynTpPrimitive> for DynTpPrimitive {
    open spec fn eqv(&self, o: &DynTpPrimitive) -> bool {
        match (*self, *o) {
            //@foreach
            (DynTpPrimitive::$V(a), DynTpPrimitive::$V(b)) => a.eqv(&b),
            //@endfor
            _ => false,
        }
    }
    //@traitfn tp_client::contract::properties::dynamic::property::PartialEq@DynTpPrimitive::eq
    //@eqcalls
    //@end
}
impl PEq<DynTpVec> for DynTpVec {
    open spec fn eqv(&self, o: &DynTpVec) -> bool {
        match (*self, *o) {
            //@foreach
            (DynTpVec::$V(a), DynTpVec::$V(b)) => a.eqv(&b),
            //@endfor
            _ => false,
        }
    }
    //@traitfn tp_client::contract::properties::dynamic::property::PartialEq@DynTpVec::eq
    //@eqcalls
    //@end
}
impl PEq<DynTpProperty> for DynTpProperty {
    open spec fn eqv(&self, o: &DynTpProperty) -> bool {
        match (*self, *o) {
            (DynTpProperty::Primitive(a), DynTpProperty::Primitive(b)) => a.eqv(&b),
            (DynTpProperty::Vec(a), DynTpProperty::Vec(b)) => a.eqv(&b),
            _ => false,
        }
    }
    //@traitfn tp_client::contract::properties::dynamic::property::PartialEq@DynTpProperty::eq
    //@eqcalls
    //@end
}
//@foreach
impl PEq<$T> for DynTpPrimitive {
    open spec fn eqv(&self, o: &$T) -> bool { *self matches DynTpPrimitive::$V(x) && x.eqv(o) }
    //@traitfn tp_client::contract::properties::dynamic::primitive::PartialEq<$T>@DynTpPrimitive::eq
    //@eqcalls
    //@end
}
impl PEq<DynTpPrimitive> for $T {
    open spec fn eqv(&self, o: &DynTpPrimitive) -> bool { *o matches DynTpPrimitive::$V(x) && self.eqv(&x) }
    //@traitfn tp_client::contract::properties::dynamic::primitive::PartialEq<DynTpPrimitive>@$T::eq
    //@eqcalls
    //@end
}
impl PEq<Vec<$T>> for DynTpVec {
    open spec fn eqv(&self, o: &Vec<$T>) -> bool { *self matches DynTpVec::$V(x) && x.eqv(o) }
    //@traitfn tp_client::contract::properties::dynamic::vec::PartialEq<Vec<$T>>@DynTpVec::eq
    //@eqcalls
    //@end
}
impl PEq<DynTpVec> for Vec<$T> {
    open spec fn eqv(&self, o: &DynTpVec) -> bool { *o matches DynTpVec::$V(x) && self.eqv(&x) }
    //@traitfn tp_client::contract::properties::dynamic::vec::PartialEq<DynTpVec>@Vec<$T>::eq
    //@eqcalls
    //@end
}
impl PEq<&[$T]> for DynTpVec {
    open spec fn eqv(&self, o: &&[$T]) -> bool { *self matches DynTpVec::$V(x) && x.eqv(o) }
    //@traitfn tp_client::contract::properties::dynamic::vec::PartialEq<&[$T]>@DynTpVec::eq
    //@eqcalls
    //@end
}
impl PEq<DynTpVec> for &[$T] {
    open spec fn eqv(&self, o: &DynTpVec) -> bool { *o matches DynTpVec::$V(x) && self.eqv(&x) }
    //@traitfn tp_client::contract::properties::dynamic::vec::PartialEq<DynTpVec>@&[$T]::eq
    //@eqcalls
    //@end
}
impl PEq<DynTpProperty> for $T {
    open spec fn eqv(&self, o: &DynTpProperty) -> bool { *o matches DynTpProperty::Primitive(DynTpPrimitive::$V(x)) && x.eqv(self) }
    //@traitfn tp_client::contract::properties::dynamic::eq_impls::PartialEq<DynTpProperty>@$T::eq
    //@eqcalls
    //@end
}
impl PEq<DynTpProperty> for &[$T] {
    open spec fn eqv(&self, o: &DynTpProperty) -> bool { *o matches DynTpProperty::Vec(DynTpVec::$V(x)) && x.eqv(self) }
    //@traitfn tp_client::contract::properties::dynamic::eq_impls::PartialEq<DynTpProperty>@&[$T]::eq
    //@eqcalls
    //@end
}
impl PEq<DynTpProperty> for Vec<$T> {
    open spec fn eqv(&self, o: &DynTpProperty) -> bool { *o matches DynTpProperty::Vec(DynTpVec::$V(x)) && x.eqv(self) }
    //@traitfn tp_client::contract::properties::dynamic::eq_impls::PartialEq<DynTpProperty>@Vec<$T>::eq
    //@eqcalls
    //@end
}
//@endfor
impl<T: ?Sized> PEq<T> for DynTpProperty where DynTpPrimitive: PEq<T> {
    open spec fn eqv(&self, o: &T) -> bool { *self matches DynTpProperty::Primitive(p) && p.eqv(o) }
    //@traitfn tp_client::contract::properties::dynamic::eq_impls::PartialEq<T>@DynTpProperty::eq
    //@eqcalls
    //@end
}
impl<'a, T> PEq<&'a [T]> for DynTpProperty where DynTpVec: PEq<&'a [T]> {
    open spec fn eqv(&self, o: &&'a [T]) -> bool { *self matches DynTpProperty::Vec(p) && p.eqv(o) }
    //@traitfn tp_client::contract::properties::dynamic::eq_impls::PartialEq<&[T]>@DynTpProperty::eq
    //@eqcalls
    //@end
}
impl<T> PEq<Vec<T>> for DynTpProperty where DynTpVec: PEq<Vec<T>> {
    open spec fn eqv(&self, o: &Vec<T>) -> bool { *self matches DynTpProperty::Vec(p) && p.eqv(o) }
    //@traitfn tp_client::contract::properties::dynamic::eq_impls::PartialEq<Vec<T>>@DynTpProperty::eq
    //@eqcalls
    //@end
}

// ---- conversions ----
use vstd::std_specs::convert::{FromSpecImpl, TryFromSpecImpl};
//@foreach
impl FromSpecImpl<$T> for DynTpPrimitive {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $T) -> Self { DynTpPrimitive::$V(v) }
}
impl From<$T> for DynTpPrimitive {
    //@traitfn tp_client::contract::properties::dynamic::property::From<$T>@DynTpPrimitive::from
    //@end
}
impl FromSpecImpl<Vec<$T>> for DynTpVec {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Vec<$T>) -> Self { DynTpVec::$V(v) }
}
impl From<Vec<$T>> for DynTpVec {
    //@traitfn tp_client::contract::properties::dynamic::property::From<Vec<$T>>@DynTpVec::from
    //@end
}
impl FromSpecImpl<$T> for DynTpProperty {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: $T) -> Self { DynTpProperty::Primitive(DynTpPrimitive::$V(v)) }
}
impl From<$T> for DynTpProperty {
    //@traitfn tp_client::contract::properties::dynamic::from_impls::From<$T>@DynTpProperty::from
    //@end
}
impl FromSpecImpl<Vec<$T>> for DynTpProperty {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Vec<$T>) -> Self { DynTpProperty::Vec(DynTpVec::$V(v)) }
}
impl From<Vec<$T>> for DynTpProperty {
    //@traitfn tp_client::contract::properties::dynamic::from_impls::From<Vec<$T>>@DynTpProperty::from
    //@end
}
impl TryFromSpecImpl<DynTpPrimitive> for $T {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: DynTpPrimitive) -> Result<Self, &'static str> { arbitrary() }
}
impl TryFrom<DynTpPrimitive> for $T {
    type Error = &'static str;
    //@traitfn tp_client::contract::properties::dynamic::property::TryFrom<DynTpPrimitive>@$T::try_from
    //@spec
        ensures (match $A0 { DynTpPrimitive::$V(x) => ret == Ok::<$T, &'static str>(x), _ => ret is Err })
    //@end
}
impl TryFromSpecImpl<DynTpVec> for Vec<$T> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: DynTpVec) -> Result<Self, &'static str> { arbitrary() }
}
impl TryFrom<DynTpVec> for Vec<$T> {
    type Error = &'static str;
    //@traitfn tp_client::contract::properties::dynamic::property::TryFrom<DynTpVec>@Vec<$T>::try_from
    //@spec
        ensures (match $A0 { DynTpVec::$V(x) => ret == Ok::<Vec<$T>, &'static str>(x), _ => ret is Err })
    //@end
}
//@endfor
impl FromSpecImpl<DynTpPrimitive> for DynTpProperty {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynTpPrimitive) -> Self { DynTpProperty::Primitive(v) }
}
impl From<DynTpPrimitive> for DynTpProperty {
    //@traitfn tp_client::contract::properties::dynamic::property::From<DynTpPrimitive>@DynTpProperty::from
    //@end
}
impl FromSpecImpl<DynTpVec> for DynTpProperty {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynTpVec) -> Self { DynTpProperty::Vec(v) }
}
impl From<DynTpVec> for DynTpProperty {
    //@traitfn tp_client::contract::properties::dynamic::property::From<DynTpVec>@DynTpProperty::from
    //@end
}
impl TryFromSpecImpl<DynTpProperty> for DynTpPrimitive {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: DynTpProperty) -> Result<Self, &'static str> { arbitrary() }
}
impl TryFrom<DynTpProperty> for DynTpPrimitive {
    type Error = &'static str;
    //@traitfn tp_client::contract::properties::dynamic::property::TryFrom<DynTpProperty>@DynTpPrimitive::try_from
    //@spec
        ensures (match $A0 { DynTpProperty::Primitive(x) => ret == Ok::<DynTpPrimitive, &'static str>(x), _ => ret is Err })
    //@end
}
impl TryFromSpecImpl<DynTpProperty> for DynTpVec {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: DynTpProperty) -> Result<Self, &'static str> { arbitrary() }
}
impl TryFrom<DynTpProperty> for DynTpVec {
    type Error = &'static str;
    //@traitfn tp_client::contract::properties::dynamic::property::TryFrom<DynTpProperty>@DynTpVec::try_from
    //@spec
        ensures (match $A0 { DynTpProperty::Vec(x) => ret == Ok::<DynTpVec, &'static str>(x), _ => ret is Err })
    //@end
}

// ======================================================================================
// Borrowed dynamic values
// ======================================================================================
pub use refs::*;
pub mod refs {
use super::*;
//@enum tp_client::contract::properties::dynamic::property::DynTpPrimitiveRef
//@enum tp_client::contract::properties::dynamic::property::DynTpVecRef
//@enum tp_client::contract::properties::dynamic::property::DynTpPropertyRef
impl<'a> DynTpPrimitiveRef<'a> {
    pub open spec fn prim(self) -> TpPrimitiveType {
        match self {
            //@foreach
            DynTpPrimitiveRef::$V(_) => TpPrimitiveType::$V,
            //@endfor
        }
    }
    //@fn tp_client::contract::properties::dynamic::property::DynTpPrimitiveRef::prop_type
    //@spec
        ensures ret == TpPropertyType::Primitive(self.prim())
    //@end
}
impl<'a> DynTpVecRef<'a> {
    pub open spec fn prim(self) -> TpPrimitiveType {
        match self {
            //@foreach
            DynTpVecRef::$V(_) => TpPrimitiveType::$V,
            //@endfor
        }
    }
    //@fn tp_client::contract::properties::dynamic::property::DynTpVecRef::prop_type
    //@spec
        ensures ret == TpPropertyType::Vec(self.prim())
    //@end
}
impl<'a> DynTpPropertyRef<'a> {
    pub open spec fn ptype(self) -> TpPropertyType {
        match self {
            DynTpPropertyRef::Primitive(p) => TpPropertyType::Primitive(p.prim()),
            DynTpPropertyRef::Vec(p) => TpPropertyType::Vec(p.prim()),
        }
    }
    /// borrows this value
    pub open spec fn of(self, p: DynTpProperty) -> bool {
        match (self, p) {
            //@foreach
            (DynTpPropertyRef::Primitive(DynTpPrimitiveRef::$V(a)), DynTpProperty::Primitive(DynTpPrimitive::$V(b))) => *a == b,
            (DynTpPropertyRef::Vec(DynTpVecRef::$V(a)), DynTpProperty::Vec(DynTpVec::$V(b))) => a@ == b@,
            //@endfor
            _ => false,
        }
    }
    //@fn tp_client::contract::properties::dynamic::property::DynTpPropertyRef::prop_type
    //@spec
        ensures ret == self.ptype()
    //@end
}
//@foreach
impl<'a> FromSpecImpl<&'a $T> for DynTpPrimitiveRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a $T) -> Self { DynTpPrimitiveRef::$V(v) }
}
impl<'a> From<&'a $T> for DynTpPrimitiveRef<'a> {
    //@traitfn tp_client::contract::properties::dynamic::property::From<&$T>@DynTpPrimitiveRef::from
    //@end
}
impl<'a> FromSpecImpl<&'a [$T]> for DynTpVecRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a [$T]) -> Self { DynTpVecRef::$V(v) }
}
impl<'a> From<&'a [$T]> for DynTpVecRef<'a> {
    //@traitfn tp_client::contract::properties::dynamic::property::From<&[$T]>@DynTpVecRef::from
    //@end
}
impl<'a> FromSpecImpl<&'a Vec<$T>> for DynTpVecRef<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a Vec<$T>) -> Self { arbitrary() }
}
impl<'a> From<&'a Vec<$T>> for DynTpVecRef<'a> {
    //@traitfn tp_client::contract::properties::dynamic::from_impls::From<&Vec<$T>>@DynTpVecRef::from
    //@spec
        ensures ret matches DynTpVecRef::$V(x) && x@ == $A0@
    //@end
}
impl<'a> FromSpecImpl<&'a $T> for DynTpPropertyRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a $T) -> Self { DynTpPropertyRef::Primitive(DynTpPrimitiveRef::$V(v)) }
}
impl<'a> From<&'a $T> for DynTpPropertyRef<'a> {
    //@traitfn tp_client::contract::properties::dynamic::from_impls::From<&$T>@DynTpPropertyRef::from
    //@end
}
impl<'a> FromSpecImpl<&'a [$T]> for DynTpPropertyRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a [$T]) -> Self { DynTpPropertyRef::Vec(DynTpVecRef::$V(v)) }
}
impl<'a> From<&'a [$T]> for DynTpPropertyRef<'a> {
    //@traitfn tp_client::contract::properties::dynamic::from_impls::From<&[$T]>@DynTpPropertyRef::from
    //@end
}
impl<'a> FromSpecImpl<&'a Vec<$T>> for DynTpPropertyRef<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a Vec<$T>) -> Self { arbitrary() }
}
impl<'a> From<&'a Vec<$T>> for DynTpPropertyRef<'a> {
    //@traitfn tp_client::contract::properties::dynamic::from_impls::From<&Vec<$T>>@DynTpPropertyRef::from
    //@spec
        ensures ret matches DynTpPropertyRef::Vec(DynTpVecRef::$V(x)) && x@ == $A0@
    //@end
}
//@endfor
impl<'a> FromSpecImpl<DynTpPrimitiveRef<'a>> for DynTpPropertyRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynTpPrimitiveRef<'a>) -> Self { DynTpPropertyRef::Primitive(v) }
}
impl<'a> From<DynTpPrimitiveRef<'a>> for DynTpPropertyRef<'a> {
    //@traitfn tp_client::contract::properties::dynamic::property::From<DynTpPrimitiveRef>@DynTpPropertyRef::from
    //@end
}
impl<'a> FromSpecImpl<DynTpVecRef<'a>> for DynTpPropertyRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynTpVecRef<'a>) -> Self { DynTpPropertyRef::Vec(v) }
}
impl<'a> From<DynTpVecRef<'a>> for DynTpPropertyRef<'a> {
    //@traitfn tp_client::contract::properties::dynamic::property::From<DynTpVecRef>@DynTpPropertyRef::from
    //@end
}
impl<'a> Copy for DynTpPrimitiveRef<'a> {}
impl<'a> Clone for DynTpPrimitiveRef<'a> {
    //@traitfn tp_client::contract::properties::dynamic::property::Clone@DynTpPrimitiveRef::clone
    //@spec
        ensures ret == *self
    //@end
}
impl<'a> Copy for DynTpVecRef<'a> {}
impl<'a> Clone for DynTpVecRef<'a> {
    //@traitfn tp_client::contract::properties::dynamic::property::Clone@DynTpVecRef::clone
    //@spec
        ensures ret == *self
    //@end
}
impl<'a> Copy for DynTpPropertyRef<'a> {}
impl<'a> Clone for DynTpPropertyRef<'a> {
    //@traitfn tp_client::contract::properties::dynamic::property::Clone@DynTpPropertyRef::clone
    //@spec
        ensures ret == *self
    //@end
}
pub trait BBorrow<'b, Borrowed> {
    spec fn borrowed(&self, b: &Borrowed) -> bool;
    fn borrow<'a>(&'a self) -> (ret: Borrowed) where 'a: 'b ensures self.borrowed(&ret);
}
impl<'b> BBorrow<'b, DynTpPropertyRef<'b>> for DynTpProperty {
    open spec fn borrowed(&self, b: &DynTpPropertyRef<'b>) -> bool { b.of(*self) }
    //@traitfn tp_client::contract::properties::dynamic::borrow_impls::BBorrow<DynTpPropertyRef>@DynTpProperty::borrow
    //@end
}
impl<'b> BBorrow<'b, DynTpPropertyRef<'b>> for &DynTpProperty {
    open spec fn borrowed(&self, b: &DynTpPropertyRef<'b>) -> bool { b.of(**self) }
    //@traitfn tp_client::contract::properties::dynamic::borrow_impls::BBorrow<DynTpPropertyRef>@&DynTpProperty::borrow
    //@end
}
impl<'a> FromSpecImpl<&'a DynTpProperty> for DynTpPropertyRef<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a DynTpProperty) -> Self { arbitrary() }
}
impl<'a> From<&'a DynTpProperty> for DynTpPropertyRef<'a> {
    //@traitfn tp_client::contract::properties::dynamic::from_impls::From<&DynTpProperty>@DynTpPropertyRef::from
    //@spec
        ensures ret.of(*$A0)
    //@end
}
// ---- equality ----
impl<'a> Discr for DynTpPrimitiveRef<'a> { open spec fn d(&self) -> int { prim_no(self.prim()) } }
impl<'a> Discr for DynTpVecRef<'a> { open spec fn d(&self) -> int { prim_no(self.prim()) } }
impl<'a> Discr for DynTpPropertyRef<'a> { open spec fn d(&self) -> int { if self is Primitive { 0 } else { 1 } } }
impl<'a> PEq<DynTpPrimitiveRef<'a>> for DynTpPrimitiveRef<'a> {
    open spec fn eqv(&self, o: &DynTpPrimitiveRef<'a>) -> bool {
        match (*self, *o) {
            //@foreach
            (DynTpPrimitiveRef::$V(a), DynTpPrimitiveRef::$V(b)) => (*a).eqv(b),
            //@endfor
            _ => false,
        }
    }
    //@traitfn tp_client::contract::properties::dynamic::property::PartialEq@DynTpPrimitiveRef::eq
    //@eqcalls
    //@end
}
impl<'a> PEq<DynTpVecRef<'a>> for DynTpVecRef<'a> {
    open spec fn eqv(&self, o: &DynTpVecRef<'a>) -> bool {
        match (*self, *o) {
            //@foreach
            (DynTpVecRef::$V(a), DynTpVecRef::$V(b)) => seq_eqv(a@, b@),
            //@endfor
            _ => false,
        }
    }
    //@traitfn tp_client::contract::properties::dynamic::property::PartialEq@DynTpVecRef::eq
    //@eqcalls
    //@end
}
impl<'a> PEq<DynTpPropertyRef<'a>> for DynTpPropertyRef<'a> {
    open spec fn eqv(&self, o: &DynTpPropertyRef<'a>) -> bool {
        match (*self, *o) {
            (DynTpPropertyRef::Primitive(a), DynTpPropertyRef::Primitive(b)) => a.eqv(&b),
            (DynTpPropertyRef::Vec(a), DynTpPropertyRef::Vec(b)) => a.eqv(&b),
            _ => false,
        }
    }
    //@traitfn tp_client::contract::properties::dynamic::property::PartialEq@DynTpPropertyRef::eq
    //@eqcalls
    //@end
}
} // refs

// ======================================================================================
// Mutably borrowed dynamic values
// ======================================================================================
pub use muts_::*;
pub mod muts_ {
use super::*;
//@enum tp_client::contract::properties::dynamic::property::DynTpPrimitiveMut
//@enum tp_client::contract::properties::dynamic::property::DynTpVecMut
//@enum tp_client::contract::properties::dynamic::property::DynTpPropertyMut
impl<'a> DynTpPrimitiveMut<'a> {
    pub open spec fn prim(self) -> TpPrimitiveType {
        match self {
            //@foreach
            DynTpPrimitiveMut::$V(_) => TpPrimitiveType::$V,
            //@endfor
        }
    }
    //@fn tp_client::contract::properties::dynamic::property::DynTpPrimitiveMut::prop_type
    //@spec
        ensures ret == TpPropertyType::Primitive(self.prim())
    //@end
}
impl<'a> DynTpVecMut<'a> {
    pub open spec fn prim(self) -> TpPrimitiveType {
        match self {
            //@foreach
            DynTpVecMut::$V(_) => TpPrimitiveType::$V,
            //@endfor
        }
    }
    //@fn tp_client::contract::properties::dynamic::property::DynTpVecMut::prop_type
    //@spec
        ensures ret == TpPropertyType::Vec(self.prim())
    //@end
}
impl<'a> DynTpPropertyMut<'a> {
    pub open spec fn ptype(self) -> TpPropertyType {
        match self {
            DynTpPropertyMut::Primitive(p) => TpPropertyType::Primitive(p.prim()),
            DynTpPropertyMut::Vec(p) => TpPropertyType::Vec(p.prim()),
        }
    }
    //@fn tp_client::contract::properties::dynamic::property::DynTpPropertyMut::prop_type
    //@spec
        ensures ret == self.ptype()
    //@end
}
//@foreach
impl<'a> FromSpecImpl<&'a mut $T> for DynTpPrimitiveMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut $T) -> Self { arbitrary() }
}
impl<'a> From<&'a mut $T> for DynTpPrimitiveMut<'a> {
    //@traitfn tp_client::contract::properties::dynamic::property::From<&mut $T>@DynTpPrimitiveMut::from
    //@spec
        ensures ret matches DynTpPrimitiveMut::$V(r) && *r == *old($A0) && *final(r) == *final($A0)
    //@end
}
impl<'a> FromSpecImpl<&'a mut [$T]> for DynTpVecMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut [$T]) -> Self { arbitrary() }
}
impl<'a> From<&'a mut [$T]> for DynTpVecMut<'a> {
    //@traitfn tp_client::contract::properties::dynamic::property::From<&mut [$T]>@DynTpVecMut::from
    //@spec
        ensures ret matches DynTpVecMut::$V(r) && r@ == old($A0)@ && final(r)@ == final($A0)@
    //@end
}
impl<'a> FromSpecImpl<&'a mut Vec<$T>> for DynTpVecMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut Vec<$T>) -> Self { arbitrary() }
}
impl<'a> From<&'a mut Vec<$T>> for DynTpVecMut<'a> {
    //@traitfn tp_client::contract::properties::dynamic::from_impls::From<&mut Vec<$T>>@DynTpVecMut::from
    //@spec
        ensures ret matches DynTpVecMut::$V(r) && r@ == old($A0)@ && final(r)@ == final($A0)@
    //@end
}
impl<'a> FromSpecImpl<&'a mut $T> for DynTpPropertyMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut $T) -> Self { arbitrary() }
}
impl<'a> From<&'a mut $T> for DynTpPropertyMut<'a> {
    //@traitfn tp_client::contract::properties::dynamic::from_impls::From<&mut $T>@DynTpPropertyMut::from
    //@spec
        ensures ret matches DynTpPropertyMut::Primitive(DynTpPrimitiveMut::$V(r)) && *r == *old($A0) && *final(r) == *final($A0)
    //@end
}
impl<'a> FromSpecImpl<&'a mut [$T]> for DynTpPropertyMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut [$T]) -> Self { arbitrary() }
}
impl<'a> From<&'a mut [$T]> for DynTpPropertyMut<'a> {
    //@traitfn tp_client::contract::properties::dynamic::from_impls::From<&mut [$T]>@DynTpPropertyMut::from
    //@spec
        ensures ret matches DynTpPropertyMut::Vec(DynTpVecMut::$V(r)) && r@ == old($A0)@ && final(r)@ == final($A0)@
    //@end
}
impl<'a> FromSpecImpl<&'a mut Vec<$T>> for DynTpPropertyMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut Vec<$T>) -> Self { arbitrary() }
}
impl<'a> From<&'a mut Vec<$T>> for DynTpPropertyMut<'a> {
    //@traitfn tp_client::contract::properties::dynamic::from_impls::From<&mut Vec<$T>>@DynTpPropertyMut::from
    //@spec
        ensures ret matches DynTpPropertyMut::Vec(DynTpVecMut::$V(r)) && r@ == old($A0)@ && final(r)@ == final($A0)@
    //@end
}
//@endfor
impl<'a> FromSpecImpl<DynTpPrimitiveMut<'a>> for DynTpPropertyMut<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynTpPrimitiveMut<'a>) -> Self { DynTpPropertyMut::Primitive(v) }
}
impl<'a> From<DynTpPrimitiveMut<'a>> for DynTpPropertyMut<'a> {
    //@traitfn tp_client::contract::properties::dynamic::property::From<DynTpPrimitiveMut>@DynTpPropertyMut::from
    //@end
}
impl<'a> FromSpecImpl<DynTpVecMut<'a>> for DynTpPropertyMut<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynTpVecMut<'a>) -> Self { DynTpPropertyMut::Vec(v) }
}
impl<'a> From<DynTpVecMut<'a>> for DynTpPropertyMut<'a> {
    //@traitfn tp_client::contract::properties::dynamic::property::From<DynTpVecMut>@DynTpPropertyMut::from
    //@end
}

/// `r` borrows the value that is `a` before and `b` after the borrow
#[verifier::prophetic]
pub open spec fn muts<'b>(r: DynTpPropertyMut<'b>, a: DynTpProperty, b: DynTpProperty) -> bool {
    match (r, a, b) {
        //@foreach
        (DynTpPropertyMut::Primitive(DynTpPrimitiveMut::$V(r)), DynTpProperty::Primitive(DynTpPrimitive::$V(x)), DynTpProperty::Primitive(DynTpPrimitive::$V(y))) => *r == x && *final(r) == y,
        (DynTpPropertyMut::Vec(DynTpVecMut::$V(r)), DynTpProperty::Vec(DynTpVec::$V(x)), DynTpProperty::Vec(DynTpVec::$V(y))) => r@ == x@ && final(r)@ == y@,
        //@endfor
        _ => false,
    }
}
pub trait BBorrowMut<'b, BorrowedMut> {
    #[verifier::prophetic]
    spec fn borrowed_mut(b: BorrowedMut, x: &Self, y: &Self) -> bool;
    fn borrow_mut<'a>(&'a mut self) -> (ret: BorrowedMut) where 'a: 'b ensures Self::borrowed_mut(ret, old(self), final(self));
}
impl<'b> BBorrowMut<'b, DynTpPropertyMut<'b>> for DynTpProperty {
    #[verifier::prophetic]
    open spec fn borrowed_mut(b: DynTpPropertyMut<'b>, x: &Self, y: &Self) -> bool { muts(b, *x, *y) }
    //@traitfn tp_client::contract::properties::dynamic::borrow_impls::BBorrowMut<DynTpPropertyMut>@DynTpProperty::borrow_mut
    //@end
}
impl<'b> BBorrowMut<'b, DynTpPropertyMut<'b>> for &mut DynTpProperty {
    #[verifier::prophetic]
    open spec fn borrowed_mut(b: DynTpPropertyMut<'b>, x: &Self, y: &Self) -> bool { muts(b, **x, **y) }
    //@traitfn tp_client::contract::properties::dynamic::borrow_impls::BBorrowMut<DynTpPropertyMut>@&mut DynTpProperty::borrow_mut
    //@end
}
impl<'a> FromSpecImpl<&'a mut DynTpProperty> for DynTpPropertyMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut DynTpProperty) -> Self { arbitrary() }
}
impl<'a> From<&'a mut DynTpProperty> for DynTpPropertyMut<'a> {
    //@traitfn tp_client::contract::properties::dynamic::from_impls::From<&mut DynTpProperty>@DynTpPropertyMut::from
    //@spec
        ensures muts(ret, *old($A0), *final($A0))
    //@end
}


// ---- equality of mutable borrows: equality of the values now ----
impl<'a> Discr for DynTpPrimitiveMut<'a> { open spec fn d(&self) -> int { prim_no(self.prim()) } }
impl<'a> Discr for DynTpVecMut<'a> { open spec fn d(&self) -> int { prim_no(self.prim()) } }
impl<'a> Discr for DynTpPropertyMut<'a> { open spec fn d(&self) -> int { if self is Primitive { 0 } else { 1 } } }
impl<'a> PEq<DynTpPrimitiveMut<'a>> for DynTpPrimitiveMut<'a> {
    open spec fn eqv(&self, o: &DynTpPrimitiveMut<'a>) -> bool {
        match (*self, *o) {
            //@foreach
            (DynTpPrimitiveMut::$V(a), DynTpPrimitiveMut::$V(b)) => (*a).eqv(&*b),
            //@endfor
            _ => false,
        }
    }
    //@traitfn tp_client::contract::properties::dynamic::property::PartialEq@DynTpPrimitiveMut::eq
    //@eqcalls
    //@end
}
impl<'a> PEq<DynTpVecMut<'a>> for DynTpVecMut<'a> {
    open spec fn eqv(&self, o: &DynTpVecMut<'a>) -> bool {
        match (*self, *o) {
            //@foreach
            (DynTpVecMut::$V(a), DynTpVecMut::$V(b)) => seq_eqv(a@, b@),
            //@endfor
            _ => false,
        }
    }
    //@traitfn tp_client::contract::properties::dynamic::property::PartialEq@DynTpVecMut::eq
    //@eqcalls
    //@end
}
impl<'a> PEq<DynTpPropertyMut<'a>> for DynTpPropertyMut<'a> {
    open spec fn eqv(&self, o: &DynTpPropertyMut<'a>) -> bool {
        match (*self, *o) {
            (DynTpPropertyMut::Primitive(a), DynTpPropertyMut::Primitive(b)) => a.eqv(&b),
            (DynTpPropertyMut::Vec(a), DynTpPropertyMut::Vec(b)) => a.eqv(&b),
            _ => false,
        }
    }
    //@traitfn tp_client::contract::properties::dynamic::property::PartialEq@DynTpPropertyMut::eq
    //@eqcalls
    //@end
}
} // muts_

// ======================================================================================
// Dynamic states
// ======================================================================================
pub use dyn_states::*;
pub mod dyn_states {
use super::*;
use crate::handles::ITpPropertyStatic;
//@struct tp_client::contract::properties::states::State
//@struct tp_client::contract::properties::states::dyn_state::DynState
//@struct tp_client::contract::properties::states::dyn_state::DynStateRef
//@struct tp_client::contract::properties::states::dyn_state::DynStateMut
impl FromSpecImpl<DynTpProperty> for DynState {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynTpProperty) -> Self { DynState(v) }
}
impl From<DynTpProperty> for DynState {
    //@traitfn tp_client::contract::properties::states::dyn_state::From<DynTpProperty>@DynState::from
    //@end
}
impl FromSpecImpl<DynState> for DynTpProperty {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynState) -> Self { v.0 }
}
impl From<DynState> for DynTpProperty {
    //@traitfn tp_client::contract::properties::states::dyn_state::From<DynState>@DynTpProperty::from
    //@end
}
impl<'a> FromSpecImpl<DynTpPropertyRef<'a>> for DynStateRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynTpPropertyRef<'a>) -> Self { DynStateRef(v) }
}
impl<'a> From<DynTpPropertyRef<'a>> for DynStateRef<'a> {
    //@traitfn tp_client::contract::properties::states::dyn_state::From<DynTpPropertyRef>@DynStateRef::from
    //@end
}
impl<'a> FromSpecImpl<DynStateRef<'a>> for DynTpPropertyRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynStateRef<'a>) -> Self { v.0 }
}
impl<'a> From<DynStateRef<'a>> for DynTpPropertyRef<'a> {
    //@traitfn tp_client::contract::properties::states::dyn_state::From<DynStateRef>@DynTpPropertyRef::from
    //@end
}
impl<'a> FromSpecImpl<DynTpPropertyMut<'a>> for DynStateMut<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynTpPropertyMut<'a>) -> Self { DynStateMut(v) }
}
impl<'a> From<DynTpPropertyMut<'a>> for DynStateMut<'a> {
    //@traitfn tp_client::contract::properties::states::dyn_state::From<DynTpPropertyMut>@DynStateMut::from
    //@end
}
impl<'a> FromSpecImpl<DynStateMut<'a>> for DynTpPropertyMut<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynStateMut<'a>) -> Self { v.0 }
}
impl<'a> From<DynStateMut<'a>> for DynTpPropertyMut<'a> {
    //@traitfn tp_client::contract::properties::states::dyn_state::From<DynStateMut>@DynTpPropertyMut::from
    //@end
}
impl PEq<DynState> for DynState {
    open spec fn eqv(&self, o: &DynState) -> bool { self.0.eqv(&o.0) }
    //@traitfn tp_client::contract::properties::states::dyn_state::PartialEq@DynState::eq
    //@eqcalls
    //@end
}
impl<'a> PEq<DynStateRef<'a>> for DynStateRef<'a> {
    open spec fn eqv(&self, o: &DynStateRef<'a>) -> bool { self.0.eqv(&o.0) }
    //@traitfn tp_client::contract::properties::states::dyn_state::PartialEq@DynStateRef::eq
    //@eqcalls
    //@end
}
impl<'a> PEq<DynStateMut<'a>> for DynStateMut<'a> {
    open spec fn eqv(&self, o: &DynStateMut<'a>) -> bool { self.0.eqv(&o.0) }
    //@traitfn tp_client::contract::properties::states::dyn_state::PartialEq@DynStateMut::eq
    //@eqcalls
    //@end
}
//@foreach
impl FromSpecImpl<State<$T>> for DynState {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: State<$T>) -> Self { DynState(DynTpProperty::Primitive(DynTpPrimitive::$V(v.value))) }
}
impl From<State<$T>> for DynState {
    //@traitfn tp_client::contract::properties::states::dyn_state::From<State<$T>>@DynState::from
    //@end
}
impl FromSpecImpl<State<Vec<$T>>> for DynState {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: State<Vec<$T>>) -> Self { DynState(DynTpProperty::Vec(DynTpVec::$V(v.value))) }
}
impl From<State<Vec<$T>>> for DynState {
    //@traitfn tp_client::contract::properties::states::dyn_state::From<State<Vec<$T>>>@DynState::from
    //@end
}
impl<'a> FromSpecImpl<&'a State<$T>> for DynStateRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a State<$T>) -> Self { DynStateRef(DynTpPropertyRef::Primitive(DynTpPrimitiveRef::$V(&v.value))) }
}
impl<'a> From<&'a State<$T>> for DynStateRef<'a> {
    //@traitfn tp_client::contract::properties::states::dyn_state::From<&State<$T>>@DynStateRef::from
    //@end
}
impl<'a> FromSpecImpl<&'a State<Vec<$T>>> for DynStateRef<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a State<Vec<$T>>) -> Self { arbitrary() }
}
impl<'a> From<&'a State<Vec<$T>>> for DynStateRef<'a> {
    //@traitfn tp_client::contract::properties::states::dyn_state::From<&State<Vec<$T>>>@DynStateRef::from
    //@spec
        ensures ret.0 matches DynTpPropertyRef::Vec(DynTpVecRef::$V(x)) && x@ == $A0.value@
    //@end
}
impl<'a> FromSpecImpl<&'a mut State<$T>> for DynStateMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut State<$T>) -> Self { arbitrary() }
}
impl<'a> From<&'a mut State<$T>> for DynStateMut<'a> {
    //@traitfn tp_client::contract::properties::states::dyn_state::From<&mut State<$T>>@DynStateMut::from
    //@spec
        ensures ret.0 matches DynTpPropertyMut::Primitive(DynTpPrimitiveMut::$V(r)) && *r == old($A0).value && *final(r) == final($A0).value
    //@end
}
impl<'a> FromSpecImpl<&'a mut State<Vec<$T>>> for DynStateMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut State<Vec<$T>>) -> Self { arbitrary() }
}
impl<'a> From<&'a mut State<Vec<$T>>> for DynStateMut<'a> {
    //@traitfn tp_client::contract::properties::states::dyn_state::From<&mut State<Vec<$T>>>@DynStateMut::from
    //@spec
        ensures ret.0 matches DynTpPropertyMut::Vec(DynTpVecMut::$V(r)) && r@ == old($A0).value@ && final(r)@ == final($A0).value@
    //@end
}
//@endfor
} // dyn_states

// ======================================================================================
// Dynamic channels
// ======================================================================================
pub use dyn_channels::*;
pub mod dyn_channels {
use super::*;
/// nothing is claimed here about what a channel holds: only that it arrives as it is
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Channel<T> { _p: core::marker::PhantomData<T> }
//@enum tp_client::contract::properties::channels::dyn_channel::DynChannelPrimitive
//@enum tp_client::contract::properties::channels::dyn_channel::DynChannelVec
//@enum tp_client::contract::properties::channels::dyn_channel::DynChannel
//@enum tp_client::contract::properties::channels::dyn_channel::DynChannelPrimitiveRef
//@enum tp_client::contract::properties::channels::dyn_channel::DynChannelVecRef
//@enum tp_client::contract::properties::channels::dyn_channel::DynChannelRef
//@enum tp_client::contract::properties::channels::dyn_channel::DynChannelPrimitiveMut
//@enum tp_client::contract::properties::channels::dyn_channel::DynChannelVecMut
//@enum tp_client::contract::properties::channels::dyn_channel::DynChannelMut
impl DynChannelPrimitive {
    pub open spec fn prim(self) -> TpPrimitiveType {
        match self {
            //@foreach
            DynChannelPrimitive::$V(_) => TpPrimitiveType::$V,
            //@endfor
        }
    }
    //@fn tp_client::contract::properties::channels::dyn_channel::DynChannelPrimitive::prop_type
    //@spec
        ensures ret == TpPropertyType::Primitive(self.prim())
    //@end
}
impl DynChannelVec {
    pub open spec fn prim(self) -> TpPrimitiveType {
        match self {
            //@foreach
            DynChannelVec::$V(_) => TpPrimitiveType::$V,
            //@endfor
        }
    }
    //@fn tp_client::contract::properties::channels::dyn_channel::DynChannelVec::prop_type
    //@spec
        ensures ret == TpPropertyType::Vec(self.prim())
    //@end
}
impl DynChannel {
    pub open spec fn ptype(self) -> TpPropertyType {
        match self {
            DynChannel::Primitive(p) => TpPropertyType::Primitive(p.prim()),
            DynChannel::Vec(p) => TpPropertyType::Vec(p.prim()),
        }
    }
    //@fn tp_client::contract::properties::channels::dyn_channel::DynChannel::prop_type
    //@spec
        ensures ret == self.ptype()
    //@end
}
impl<'a> DynChannelPrimitiveRef<'a> {
    pub open spec fn prim(self) -> TpPrimitiveType {
        match self {
            //@foreach
            DynChannelPrimitiveRef::$V(_) => TpPrimitiveType::$V,
            //@endfor
        }
    }
    //@fn tp_client::contract::properties::channels::dyn_channel::DynChannelPrimitiveRef::prop_type
    //@spec
        ensures ret == TpPropertyType::Primitive(self.prim())
    //@end
}
impl<'a> DynChannelVecRef<'a> {
    pub open spec fn prim(self) -> TpPrimitiveType {
        match self {
            //@foreach
            DynChannelVecRef::$V(_) => TpPrimitiveType::$V,
            //@endfor
        }
    }
    //@fn tp_client::contract::properties::channels::dyn_channel::DynChannelVecRef::prop_type
    //@spec
        ensures ret == TpPropertyType::Vec(self.prim())
    //@end
}
impl<'a> DynChannelRef<'a> {
    pub open spec fn ptype(self) -> TpPropertyType {
        match self {
            DynChannelRef::Primitive(p) => TpPropertyType::Primitive(p.prim()),
            DynChannelRef::Vec(p) => TpPropertyType::Vec(p.prim()),
        }
    }
    //@fn tp_client::contract::properties::channels::dyn_channel::DynChannelRef::prop_type
    //@spec
        ensures ret == self.ptype()
    //@end
}
impl<'a> DynChannelPrimitiveMut<'a> {
    pub open spec fn prim(self) -> TpPrimitiveType {
        match self {
            //@foreach
            DynChannelPrimitiveMut::$V(_) => TpPrimitiveType::$V,
            //@endfor
        }
    }
    //@fn tp_client::contract::properties::channels::dyn_channel::DynChannelPrimitiveMut::prop_type
    //@spec
        ensures ret == TpPropertyType::Primitive(self.prim())
    //@end
}
impl<'a> DynChannelVecMut<'a> {
    pub open spec fn prim(self) -> TpPrimitiveType {
        match self {
            //@foreach
            DynChannelVecMut::$V(_) => TpPrimitiveType::$V,
            //@endfor
        }
    }
    //@fn tp_client::contract::properties::channels::dyn_channel::DynChannelVecMut::prop_type
    //@spec
        ensures ret == TpPropertyType::Vec(self.prim())
    //@end
}
impl<'a> DynChannelMut<'a> {
    pub open spec fn ptype(self) -> TpPropertyType {
        match self {
            DynChannelMut::Primitive(p) => TpPropertyType::Primitive(p.prim()),
            DynChannelMut::Vec(p) => TpPropertyType::Vec(p.prim()),
        }
    }
    //@fn tp_client::contract::properties::channels::dyn_channel::DynChannelMut::prop_type
    //@spec
        ensures ret == self.ptype()
    //@end
}
//@foreach
impl FromSpecImpl<Channel<$T>> for DynChannelPrimitive {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Channel<$T>) -> Self { DynChannelPrimitive::$V(v) }
}
impl From<Channel<$T>> for DynChannelPrimitive {
    //@traitfn tp_client::contract::properties::channels::dyn_channel::From<Channel<$T>>@DynChannelPrimitive::from
    //@end
}
impl TryFromSpecImpl<DynChannelPrimitive> for Channel<$T> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: DynChannelPrimitive) -> Result<Self, &'static str> { arbitrary() }
}
impl TryFrom<DynChannelPrimitive> for Channel<$T> {
    type Error = &'static str;
    //@traitfn tp_client::contract::properties::channels::dyn_channel::TryFrom<DynChannelPrimitive>@Channel<$T>::try_from
    //@spec
        ensures (match $A0 { DynChannelPrimitive::$V(x) => ret == Ok::<Channel<$T>, &'static str>(x), _ => ret is Err })
    //@end
}
impl<'a> FromSpecImpl<&'a Channel<$T>> for DynChannelPrimitiveRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a Channel<$T>) -> Self { DynChannelPrimitiveRef::$V(v) }
}
impl<'a> From<&'a Channel<$T>> for DynChannelPrimitiveRef<'a> {
    //@traitfn tp_client::contract::properties::channels::dyn_channel::From<&Channel<$T>>@DynChannelPrimitiveRef::from
    //@end
}
impl<'a> FromSpecImpl<&'a Channel<$T>> for DynChannelRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a Channel<$T>) -> Self { DynChannelRef::Primitive(DynChannelPrimitiveRef::$V(v)) }
}
impl<'a> From<&'a Channel<$T>> for DynChannelRef<'a> {
    //@traitfn tp_client::contract::properties::channels::dyn_channel::from_impls::From<&Channel<$T>>@DynChannelRef::from
    //@end
}
impl<'a> FromSpecImpl<&'a mut Channel<$T>> for DynChannelPrimitiveMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut Channel<$T>) -> Self { arbitrary() }
}
impl<'a> From<&'a mut Channel<$T>> for DynChannelPrimitiveMut<'a> {
    //@traitfn tp_client::contract::properties::channels::dyn_channel::From<&mut Channel<$T>>@DynChannelPrimitiveMut::from
    //@spec
        ensures ret matches DynChannelPrimitiveMut::$V(r) && *r == *old($A0) && *final(r) == *final($A0)
    //@end
}
impl<'a> FromSpecImpl<&'a mut Channel<$T>> for DynChannelMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut Channel<$T>) -> Self { arbitrary() }
}
impl<'a> From<&'a mut Channel<$T>> for DynChannelMut<'a> {
    //@traitfn tp_client::contract::properties::channels::dyn_channel::from_impls::From<&mut Channel<$T>>@DynChannelMut::from
    //@spec
        ensures ret matches DynChannelMut::Primitive(DynChannelPrimitiveMut::$V(r)) && *r == *old($A0) && *final(r) == *final($A0)
    //@end
}
impl FromSpecImpl<Channel<Vec<$T>>> for DynChannelVec {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Channel<Vec<$T>>) -> Self { DynChannelVec::$V(v) }
}
impl From<Channel<Vec<$T>>> for DynChannelVec {
    //@traitfn tp_client::contract::properties::channels::dyn_channel::From<Channel<Vec<$T>>>@DynChannelVec::from
    //@end
}
impl TryFromSpecImpl<DynChannelVec> for Channel<Vec<$T>> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: DynChannelVec) -> Result<Self, &'static str> { arbitrary() }
}
impl TryFrom<DynChannelVec> for Channel<Vec<$T>> {
    type Error = &'static str;
    //@traitfn tp_client::contract::properties::channels::dyn_channel::TryFrom<DynChannelVec>@Channel<Vec<$T>>::try_from
    //@spec
        ensures (match $A0 { DynChannelVec::$V(x) => ret == Ok::<Channel<Vec<$T>>, &'static str>(x), _ => ret is Err })
    //@end
}
impl<'a> FromSpecImpl<&'a Channel<Vec<$T>>> for DynChannelVecRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a Channel<Vec<$T>>) -> Self { DynChannelVecRef::$V(v) }
}
impl<'a> From<&'a Channel<Vec<$T>>> for DynChannelVecRef<'a> {
    //@traitfn tp_client::contract::properties::channels::dyn_channel::From<&Channel<Vec<$T>>>@DynChannelVecRef::from
    //@end
}
impl<'a> FromSpecImpl<&'a Channel<Vec<$T>>> for DynChannelRef<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a Channel<Vec<$T>>) -> Self { DynChannelRef::Vec(DynChannelVecRef::$V(v)) }
}
impl<'a> From<&'a Channel<Vec<$T>>> for DynChannelRef<'a> {
    //@traitfn tp_client::contract::properties::channels::dyn_channel::from_impls::From<&Channel<Vec<$T>>>@DynChannelRef::from
    //@end
}
impl<'a> FromSpecImpl<&'a mut Channel<Vec<$T>>> for DynChannelVecMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut Channel<Vec<$T>>) -> Self { arbitrary() }
}
impl<'a> From<&'a mut Channel<Vec<$T>>> for DynChannelVecMut<'a> {
    //@traitfn tp_client::contract::properties::channels::dyn_channel::From<&mut Channel<Vec<$T>>>@DynChannelVecMut::from
    //@spec
        ensures ret matches DynChannelVecMut::$V(r) && *r == *old($A0) && *final(r) == *final($A0)
    //@end
}
impl<'a> FromSpecImpl<&'a mut Channel<Vec<$T>>> for DynChannelMut<'a> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a mut Channel<Vec<$T>>) -> Self { arbitrary() }
}
impl<'a> From<&'a mut Channel<Vec<$T>>> for DynChannelMut<'a> {
    //@traitfn tp_client::contract::properties::channels::dyn_channel::from_impls::From<&mut Channel<Vec<$T>>>@DynChannelMut::from
    //@spec
        ensures ret matches DynChannelMut::Vec(DynChannelVecMut::$V(r)) && *r == *old($A0) && *final(r) == *final($A0)
    //@end
}
//@endfor
impl FromSpecImpl<DynChannelPrimitive> for DynChannel {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynChannelPrimitive) -> Self { DynChannel::Primitive(v) }
}
impl From<DynChannelPrimitive> for DynChannel {
    //@traitfn tp_client::contract::properties::channels::dyn_channel::From<DynChannelPrimitive>@DynChannel::from
    //@end
}
impl TryFromSpecImpl<DynChannel> for DynChannelPrimitive {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: DynChannel) -> Result<Self, &'static str> { arbitrary() }
}
impl TryFrom<DynChannel> for DynChannelPrimitive {
    type Error = &'static str;
    //@traitfn tp_client::contract::properties::channels::dyn_channel::TryFrom<DynChannel>@DynChannelPrimitive::try_from
    //@spec
        ensures (match $A0 { DynChannel::Primitive(x) => ret == Ok::<DynChannelPrimitive, &'static str>(x), _ => ret is Err })
    //@end
}
impl FromSpecImpl<DynChannelVec> for DynChannel {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynChannelVec) -> Self { DynChannel::Vec(v) }
}
impl From<DynChannelVec> for DynChannel {
    //@traitfn tp_client::contract::properties::channels::dyn_channel::From<DynChannelVec>@DynChannel::from
    //@end
}
impl TryFromSpecImpl<DynChannel> for DynChannelVec {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: DynChannel) -> Result<Self, &'static str> { arbitrary() }
}
impl TryFrom<DynChannel> for DynChannelVec {
    type Error = &'static str;
    //@traitfn tp_client::contract::properties::channels::dyn_channel::TryFrom<DynChannel>@DynChannelVec::try_from
    //@spec
        ensures (match $A0 { DynChannel::Vec(x) => ret == Ok::<DynChannelVec, &'static str>(x), _ => ret is Err })
    //@end
}
} // dyn_channels

// ======================================================================================
// Handles of dynamic type
// ======================================================================================
/// stands for the standard library's `impl<T, U: From<T>> Into<U> for T`, where a contract needs to
/// speak about a conversion that is a type parameter's
pub trait VFrom<X>: Sized {
    #[verifier::prophetic]
    spec fn conv(x: X, r: Self) -> bool;
    fn v_from(x: X) -> (r: Self) ensures Self::conv(x, r);
}
pub trait VInto<U>: Sized {
    #[verifier::prophetic]
    spec fn conv(self, r: U) -> bool;
    fn v_conv(self) -> (r: U) ensures self.conv(r);
}
pub fn v_into<T: VInto<U>, U>(x: T) -> (r: U) ensures x.conv(r) { VInto::v_conv(x) }
pub mod generational_arena {
    #[derive(Copy, Clone)]
    pub struct Index { pub index: usize, pub generation: u64 }
}
pub mod arena {
    use super::*;
    use crate::generational_arena as ga;
    use core::marker::PhantomData;
    //@struct arena::Index
    impl<T> Copy for Index<T> {}
    impl<T> Clone for Index<T> {
        //@traitfn arena::Clone@Index::clone
        //@spec
            ensures ret.inner == self.inner
        //@end
    }
}
pub mod eyre {
    use super::*;
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct Report { _p: () }
    pub type Result<T> = core::result::Result<T, Report>;
    /// `eyre::WrapErr`: only the report changes
    pub trait WrapErr<T>: Sized {
        spec fn res(self) -> Result<T>;
        fn wrap_err(self, m: &str) -> (r: Result<T>)
            ensures r is Ok == self.res() is Ok, r matches Ok(x) ==> self.res() == Ok::<T, Report>(x);
    }
    impl<T> WrapErr<T> for Result<T> {
        open spec fn res(self) -> Result<T> { self }
        fn wrap_err(self, m: &str) -> Result<T> { self }
    }
}
pub mod typemap {
    use super::*;
    pub enum GVal { S(DynTpProperty), C(DynChannel) }
}
pub mod baseline {
    use super::*;
    use crate::typemap::GVal;
    use crate::generational_arena::Index;
    use crate::eyre::Result;
    /// its contents are unit core's; here only what cells it has
    #[verifier::external_body]
    pub struct Baseline { _p: () }
    impl Baseline {
        pub uninterp spec fn cell_s(&self, t: TpPropertyType, i: Index) -> Option<GVal>;
        pub uninterp spec fn cell_c(&self, t: TpPropertyType, i: Index) -> Option<GVal>;
        pub uninterp spec fn iss_s(&self, t: TpPropertyType, i: Index) -> bool;
        pub uninterp spec fn iss_c(&self, t: TpPropertyType, i: Index) -> bool;
    }
    //@enum tp_client::baseline::BaselineKind #[derive(Copy,Clone)]
    impl vstd::std_specs::cmp::PartialEqSpecImpl for BaselineKind {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &BaselineKind) -> bool { *self == *o }
    }
    // `derive(PartialEq)` of a plain enum
    impl core::cmp::PartialEq for BaselineKind {
        #[verifier::external_body]
        fn eq(&self, o: &BaselineKind) -> bool { unimplemented!() }
    }
    impl Baseline {
        pub uninterp spec fn k(&self) -> BaselineKind;
        /// holds no contract, no object and no field, and never issued a handle
        pub uninterp spec fn fresh(&self) -> bool;
        //@assumed tp_client::baseline::Baseline::new
        //@spec
            ensures ret.k() == $A0, ret.fresh()
        //@end
        //@fn tp_client::baseline::Baseline::state
        //@spec
            ensures $A0.got(self, ret)
        //@end
        //@fn tp_client::baseline::Baseline::state_mut
        //@spec
            ensures $A0.got_mut(*old(self), *final(self), ret)
        //@end
    }
    /// all but the states, and all but the channels
    pub uninterp spec fn but_states(a: Baseline) -> int;
    pub uninterp spec fn but_channels(a: Baseline) -> int;
    pub open spec fn only_states_differ(a: Baseline, b: Baseline) -> bool { but_states(a) == but_states(b) }
    pub open spec fn only_channels_differ(a: Baseline, b: Baseline) -> bool { but_channels(a) == but_channels(b) }
    /// the same in everything that can be observed
    pub open spec fn reads_as(a: Baseline, b: Baseline) -> bool {
        only_states_differ(a, b) && forall|t: TpPropertyType, i: Index| a.cell_s(t, i) == #[trigger] b.cell_s(t, i) && a.iss_s(t, i) == b.iss_s(t, i)
    }
}
pub use handles::*;
pub mod handles {
use super::*;
use crate::baseline::Baseline;
use crate::typemap::GVal;
use crate::eyre::Result;
use crate::generational_arena::Index;
pub trait ITpPropertyStatic: Sized + 'static {
    const PROPERTY_TYPE: TpPropertyType;
    spec fn inj(self) -> DynTpProperty;
    spec fn cinj(c: Channel<Self>) -> DynChannel;
}
//@foreach
pub const PT_$V: TpPropertyType = TpPropertyType::Primitive(TpPrimitiveType::$V);
pub const VT_$V: TpPropertyType = TpPropertyType::Vec(TpPrimitiveType::$V);
impl ITpPropertyStatic for $T {
    const PROPERTY_TYPE: TpPropertyType = PT_$V;
    open spec fn inj(self) -> DynTpProperty { DynTpProperty::Primitive(DynTpPrimitive::$V(self)) }
    open spec fn cinj(c: Channel<Self>) -> DynChannel { DynChannel::Primitive(DynChannelPrimitive::$V(c)) }
}
impl ITpPropertyStatic for Vec<$T> {
    const PROPERTY_TYPE: TpPropertyType = VT_$V;
    open spec fn inj(self) -> DynTpProperty { DynTpProperty::Vec(DynTpVec::$V(self)) }
    open spec fn cinj(c: Channel<Self>) -> DynChannel { DynChannel::Vec(DynChannelVec::$V(c)) }
}
//@endfor

pub proof fn types()
    ensures
        //@foreach
        <$T as ITpPropertyStatic>::PROPERTY_TYPE == TpPropertyType::Primitive(TpPrimitiveType::$V),
        <Vec<$T> as ITpPropertyStatic>::PROPERTY_TYPE == TpPropertyType::Vec(TpPrimitiveType::$V),
        //@endfor
{}
} // handles
pub use state_handles::*;
pub mod state_handles {
use super::*;
use crate::baseline::Baseline;
use crate::typemap::GVal;
use crate::eyre::Result;
use crate::generational_arena::Index;
pub trait IStateHandle: Sized {
    type OutputRef<'a>;
    type OutputMut<'a>;
    spec fn got<'a>(&self, b: &'a Baseline, r: Result<Self::OutputRef<'a>>) -> bool;
    #[verifier::prophetic]
    spec fn got_mut<'a>(&self, a: Baseline, b: Baseline, r: Result<Self::OutputMut<'a>>) -> bool;
    fn get<'a>(&self, baseline: &'a Baseline) -> (ret: Result<Self::OutputRef<'a>>) ensures self.got(baseline, ret);
    fn get_mut<'a>(&self, baseline: &'a mut Baseline) -> (ret: Result<Self::OutputMut<'a>>) ensures self.got_mut(*old(baseline), *final(baseline), ret);
    fn prop_type(&self) -> TpPropertyType;
}
pub type StateHandle<T> = arena::Index<State<T>>;
//@include state_handle.inc assumed
//@enum tp_client::contract::properties::states::dyn_handle::DynStateHandlePrimitive
//@enum tp_client::contract::properties::states::dyn_handle::DynStateHandleVec
//@enum tp_client::contract::properties::states::dyn_handle::DynStateHandle
impl Copy for DynStateHandlePrimitive {}
impl Copy for DynStateHandleVec {}
impl Copy for DynStateHandle {}
impl Clone for DynStateHandlePrimitive {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl Clone for DynStateHandleVec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl Clone for DynStateHandle {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl DynStateHandle {
    /// the type and the place of the field
    pub open spec fn ptype(self) -> TpPropertyType {
        match self {
            //@foreach
            DynStateHandle::Primitive(DynStateHandlePrimitive::$V(_)) => TpPropertyType::Primitive(TpPrimitiveType::$V),
            DynStateHandle::Vec(DynStateHandleVec::$V(_)) => TpPropertyType::Vec(TpPrimitiveType::$V),
            //@endfor
        }
    }
    pub open spec fn at(self) -> Index {
        match self {
            //@foreach
            DynStateHandle::Primitive(DynStateHandlePrimitive::$V(h)) => h.inner,
            DynStateHandle::Vec(DynStateHandleVec::$V(h)) => h.inner,
            //@endfor
        }
    }
}
//@foreach
impl FromSpecImpl<StateHandle<$T>> for DynStateHandlePrimitive {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: StateHandle<$T>) -> Self { DynStateHandlePrimitive::$V(v) }
}
impl From<StateHandle<$T>> for DynStateHandlePrimitive {
    //@traitfn tp_client::contract::properties::states::dyn_handle::From<StateHandle<$T>>@DynStateHandlePrimitive::from
    //@end
}
impl FromSpecImpl<StateHandle<Vec<$T>>> for DynStateHandleVec {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: StateHandle<Vec<$T>>) -> Self { DynStateHandleVec::$V(v) }
}
impl From<StateHandle<Vec<$T>>> for DynStateHandleVec {
    //@traitfn tp_client::contract::properties::states::dyn_handle::From<StateHandle<Vec<$T>>>@DynStateHandleVec::from
    //@end
}
impl FromSpecImpl<StateHandle<$T>> for DynStateHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: StateHandle<$T>) -> Self { DynStateHandle::Primitive(DynStateHandlePrimitive::$V(v)) }
}
impl From<StateHandle<$T>> for DynStateHandle {
    //@traitfn tp_client::contract::properties::states::dyn_handle::From<StateHandle<$T>>@DynStateHandle::from
    //@end
}
impl FromSpecImpl<StateHandle<Vec<$T>>> for DynStateHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: StateHandle<Vec<$T>>) -> Self { DynStateHandle::Vec(DynStateHandleVec::$V(v)) }
}
impl From<StateHandle<Vec<$T>>> for DynStateHandle {
    //@traitfn tp_client::contract::properties::states::dyn_handle::From<StateHandle<Vec<$T>>>@DynStateHandle::from
    //@end
}
impl TryFromSpecImpl<DynStateHandlePrimitive> for StateHandle<$T> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: DynStateHandlePrimitive) -> core::result::Result<Self, &'static str> { arbitrary() }
}
impl TryFrom<DynStateHandlePrimitive> for StateHandle<$T> {
    type Error = &'static str;
    //@traitfn tp_client::contract::properties::states::dyn_handle::TryFrom<DynStateHandlePrimitive>@StateHandle<$T>::try_from
    //@spec
        ensures (match $A0 { DynStateHandlePrimitive::$V(x) => ret == Ok::<StateHandle<$T>, &'static str>(x), _ => ret is Err })
    //@end
}
impl TryFromSpecImpl<DynStateHandleVec> for StateHandle<Vec<$T>> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: DynStateHandleVec) -> core::result::Result<Self, &'static str> { arbitrary() }
}
impl TryFrom<DynStateHandleVec> for StateHandle<Vec<$T>> {
    type Error = &'static str;
    //@traitfn tp_client::contract::properties::states::dyn_handle::TryFrom<DynStateHandleVec>@StateHandle<Vec<$T>>::try_from
    //@spec
        ensures (match $A0 { DynStateHandleVec::$V(x) => ret == Ok::<StateHandle<Vec<$T>>, &'static str>(x), _ => ret is Err })
    //@end
}
//@endfor
impl FromSpecImpl<DynStateHandlePrimitive> for DynStateHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynStateHandlePrimitive) -> Self { DynStateHandle::Primitive(v) }
}
impl From<DynStateHandlePrimitive> for DynStateHandle {
    //@traitfn tp_client::contract::properties::states::dyn_handle::From<DynStateHandlePrimitive>@DynStateHandle::from
    //@end
}
impl FromSpecImpl<DynStateHandleVec> for DynStateHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynStateHandleVec) -> Self { DynStateHandle::Vec(v) }
}
impl From<DynStateHandleVec> for DynStateHandle {
    //@traitfn tp_client::contract::properties::states::dyn_handle::From<DynStateHandleVec>@DynStateHandle::from
    //@end
}
//@foreach
impl<'a> VInto<DynTpPropertyMut<'a>> for &'a mut $T {
    #[verifier::prophetic]
    open spec fn conv(self, r: DynTpPropertyMut<'a>) -> bool { muts(r, (*self).inj(), (*final(self)).inj()) }
    fn v_conv(self) -> (r: DynTpPropertyMut<'a>) { DynTpPropertyMut::from(self) }
}
impl<'a> VInto<DynTpPropertyMut<'a>> for &'a mut Vec<$T> {
    #[verifier::prophetic]
    open spec fn conv(self, r: DynTpPropertyMut<'a>) -> bool { muts(r, (*self).inj(), (*final(self)).inj()) }
    fn v_conv(self) -> (r: DynTpPropertyMut<'a>) { DynTpPropertyMut::from(self) }
}
//@endfor
impl<'a> VInto<DynStateMut<'a>> for DynTpPropertyMut<'a> {
    #[verifier::prophetic]
    open spec fn conv(self, r: DynStateMut<'a>) -> bool { r.0 == self }
    fn v_conv(self) -> (r: DynStateMut<'a>) { DynStateMut::from(self) }
}
//@innerfn tp_client::contract::properties::states::dyn_handle::IStateHandle@DynStateHandle::get_mut::make_dyn
//@into
//@spec
    ensures
        crate::baseline::only_states_differ(*old($A1), *final($A1)),
        forall|t: TpPropertyType, i: Index| final($A1).iss_s(t, i) == old($A1).iss_s(t, i),
        match ret {
            Ok(r) => exists|p: &'a mut T| #[trigger] p.conv(r.0) && old($A1).cell_s(T::PROPERTY_TYPE, $A0.inner) == Some(GVal::S((*p).inj()))
                && wrote_s(*old($A1), *final($A1), T::PROPERTY_TYPE, $A0.inner, (*final(p)).inj()),
            Err(_) => old($A1).cell_s(T::PROPERTY_TYPE, $A0.inner) is None && forall|t: TpPropertyType, i: Index| #[trigger] final($A1).cell_s(t, i) == old($A1).cell_s(t, i),
        }
//@end
impl IStateHandle for DynStateHandle {
    type OutputRef<'a> = DynStateRef<'a>;
    type OutputMut<'a> = DynStateMut<'a>;
    open spec fn got<'a>(&self, b: &'a Baseline, r: Result<Self::OutputRef<'a>>) -> bool {
        match r {
            Ok(r) => b.cell_s(self.ptype(), self.at()) matches Some(GVal::S(v)) && r.0.of(v),
            Err(_) => b.cell_s(self.ptype(), self.at()) is None,
        }
    }
    //@traitfn tp_client::contract::properties::states::dyn_handle::IStateHandle@DynStateHandle::get
    //@entry
        proof { types(); }
    //@end
    #[verifier::prophetic]
    open spec fn got_mut<'a>(&self, a: Baseline, b: Baseline, r: Result<Self::OutputMut<'a>>) -> bool {
            &&& crate::baseline::only_states_differ(a, b)
            &&& forall|t: TpPropertyType, i: Index| b.iss_s(t, i) == a.iss_s(t, i)
            &&& match r {
                Ok(r) => a.cell_s(self.ptype(), self.at()) matches Some(GVal::S(v)) && exists|w: DynTpProperty| #[trigger] muts(r.0, v, w) && wrote_s(a, b, self.ptype(), self.at(), w),
                Err(_) => a.cell_s(self.ptype(), self.at()) is None && forall|t: TpPropertyType, i: Index| #[trigger] b.cell_s(t, i) == a.cell_s(t, i),
            }
    }
    //@traitfn tp_client::contract::properties::states::dyn_handle::IStateHandle@DynStateHandle::get_mut
    //@inner make_dyn
    //@entry
        proof { types(); }
    //@end
    //@traitfn tp_client::contract::properties::states::dyn_handle::IStateHandle@DynStateHandle::prop_type
    //@spec
        ensures ret == self.ptype()
    //@end
}
/// the one cell that differs holds `w`
pub open spec fn wrote_s(a: Baseline, b: Baseline, pt: TpPropertyType, at: Index, w: DynTpProperty) -> bool {
    forall|t: TpPropertyType, i: Index| #[trigger] b.cell_s(t, i) == if t == pt && i == at { Some(GVal::S(w)) } else { a.cell_s(t, i) }
}

} // state_handles
pub use channel_handles::*;
pub mod channel_handles {
use super::*;
use crate::baseline::Baseline;
use crate::typemap::GVal;
use crate::eyre::Result;
use crate::generational_arena::Index;
pub trait IChannelHandle: Sized {
    type OutputRef<'a>;
    type OutputMut<'a>;
    spec fn got<'a>(&self, b: &'a Baseline, r: Result<Self::OutputRef<'a>>) -> bool;
    #[verifier::prophetic]
    spec fn got_mut<'a>(&self, a: Baseline, b: Baseline, r: Result<Self::OutputMut<'a>>) -> bool;
    fn get<'a>(&self, baseline: &'a Baseline) -> (ret: Result<Self::OutputRef<'a>>) ensures self.got(baseline, ret);
    fn get_mut<'a>(&self, baseline: &'a mut Baseline) -> (ret: Result<Self::OutputMut<'a>>) ensures self.got_mut(*old(baseline), *final(baseline), ret);
    fn prop_type(&self) -> TpPropertyType;
}
pub type ChannelHandle<T> = arena::Index<Channel<T>>;
//@include channel_handle.inc assumed
//@enum tp_client::contract::properties::channels::dyn_handle::DynChannelHandlePrimitive
//@enum tp_client::contract::properties::channels::dyn_handle::DynChannelHandleVec
//@enum tp_client::contract::properties::channels::dyn_handle::DynChannelHandle
impl Copy for DynChannelHandlePrimitive {}
impl Copy for DynChannelHandleVec {}
impl Copy for DynChannelHandle {}
impl Clone for DynChannelHandlePrimitive {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl Clone for DynChannelHandleVec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl Clone for DynChannelHandle {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl DynChannelHandle {
    /// the type and the place of the field
    pub open spec fn ptype(self) -> TpPropertyType {
        match self {
            //@foreach
            DynChannelHandle::Primitive(DynChannelHandlePrimitive::$V(_)) => TpPropertyType::Primitive(TpPrimitiveType::$V),
            DynChannelHandle::Vec(DynChannelHandleVec::$V(_)) => TpPropertyType::Vec(TpPrimitiveType::$V),
            //@endfor
        }
    }
    pub open spec fn at(self) -> Index {
        match self {
            //@foreach
            DynChannelHandle::Primitive(DynChannelHandlePrimitive::$V(h)) => h.inner,
            DynChannelHandle::Vec(DynChannelHandleVec::$V(h)) => h.inner,
            //@endfor
        }
    }
}
//@foreach
impl FromSpecImpl<ChannelHandle<$T>> for DynChannelHandlePrimitive {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ChannelHandle<$T>) -> Self { DynChannelHandlePrimitive::$V(v) }
}
impl From<ChannelHandle<$T>> for DynChannelHandlePrimitive {
    //@traitfn tp_client::contract::properties::channels::dyn_handle::From<ChannelHandle<$T>>@DynChannelHandlePrimitive::from
    //@end
}
impl FromSpecImpl<ChannelHandle<Vec<$T>>> for DynChannelHandleVec {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ChannelHandle<Vec<$T>>) -> Self { DynChannelHandleVec::$V(v) }
}
impl From<ChannelHandle<Vec<$T>>> for DynChannelHandleVec {
    //@traitfn tp_client::contract::properties::channels::dyn_handle::From<ChannelHandle<Vec<$T>>>@DynChannelHandleVec::from
    //@end
}

impl TryFromSpecImpl<DynChannelHandlePrimitive> for ChannelHandle<$T> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: DynChannelHandlePrimitive) -> core::result::Result<Self, &'static str> { arbitrary() }
}
impl TryFrom<DynChannelHandlePrimitive> for ChannelHandle<$T> {
    type Error = &'static str;
    //@traitfn tp_client::contract::properties::channels::dyn_handle::TryFrom<DynChannelHandlePrimitive>@ChannelHandle<$T>::try_from
    //@spec
        ensures (match $A0 { DynChannelHandlePrimitive::$V(x) => ret == Ok::<ChannelHandle<$T>, &'static str>(x), _ => ret is Err })
    //@end
}
impl TryFromSpecImpl<DynChannelHandleVec> for ChannelHandle<Vec<$T>> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(v: DynChannelHandleVec) -> core::result::Result<Self, &'static str> { arbitrary() }
}
impl TryFrom<DynChannelHandleVec> for ChannelHandle<Vec<$T>> {
    type Error = &'static str;
    //@traitfn tp_client::contract::properties::channels::dyn_handle::TryFrom<DynChannelHandleVec>@ChannelHandle<Vec<$T>>::try_from
    //@spec
        ensures (match $A0 { DynChannelHandleVec::$V(x) => ret == Ok::<ChannelHandle<Vec<$T>>, &'static str>(x), _ => ret is Err })
    //@end
}
//@endfor
impl FromSpecImpl<DynChannelHandlePrimitive> for DynChannelHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynChannelHandlePrimitive) -> Self { DynChannelHandle::Primitive(v) }
}
impl From<DynChannelHandlePrimitive> for DynChannelHandle {
    //@traitfn tp_client::contract::properties::channels::dyn_handle::From<DynChannelHandlePrimitive>@DynChannelHandle::from
    //@end
}
impl FromSpecImpl<DynChannelHandleVec> for DynChannelHandle {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: DynChannelHandleVec) -> Self { DynChannelHandle::Vec(v) }
}
impl From<DynChannelHandleVec> for DynChannelHandle {
    //@traitfn tp_client::contract::properties::channels::dyn_handle::From<DynChannelHandleVec>@DynChannelHandle::from
    //@end
}
pub open spec fn cref(r: DynChannelRef<'_>, v: DynChannel) -> bool {
    match (r, v) {
        //@foreach
        (DynChannelRef::Primitive(DynChannelPrimitiveRef::$V(r)), DynChannel::Primitive(DynChannelPrimitive::$V(x))) => *r == x,
        (DynChannelRef::Vec(DynChannelVecRef::$V(r)), DynChannel::Vec(DynChannelVec::$V(x))) => *r == x,
        //@endfor
        _ => false,
    }
}
#[verifier::prophetic]
pub open spec fn cmut(r: DynChannelMut<'_>, v: DynChannel, w: DynChannel) -> bool {
    match (r, v, w) {
        //@foreach
        (DynChannelMut::Primitive(DynChannelPrimitiveMut::$V(r)), DynChannel::Primitive(DynChannelPrimitive::$V(x)), DynChannel::Primitive(DynChannelPrimitive::$V(y))) => *r == x && *final(r) == y,
        (DynChannelMut::Vec(DynChannelVecMut::$V(r)), DynChannel::Vec(DynChannelVec::$V(x)), DynChannel::Vec(DynChannelVec::$V(y))) => *r == x && *final(r) == y,
        //@endfor
        _ => false,
    }
}
//@foreach
impl<'a> VFrom<&'a mut Channel<$T>> for DynChannelMut<'a> {
    #[verifier::prophetic]
    open spec fn conv(x: &'a mut Channel<$T>, r: DynChannelMut<'a>) -> bool { cmut(r, ITpPropertyStatic::cinj(*x), ITpPropertyStatic::cinj(*final(x))) }
    fn v_from(x: &'a mut Channel<$T>) -> (r: DynChannelMut<'a>) { From::from(x) }
}
impl<'a> VFrom<&'a mut Channel<Vec<$T>>> for DynChannelMut<'a> {
    #[verifier::prophetic]
    open spec fn conv(x: &'a mut Channel<Vec<$T>>, r: DynChannelMut<'a>) -> bool { cmut(r, ITpPropertyStatic::cinj(*x), ITpPropertyStatic::cinj(*final(x))) }
    fn v_from(x: &'a mut Channel<Vec<$T>>) -> (r: DynChannelMut<'a>) { From::from(x) }
}
//@endfor
//@innerfn tp_client::contract::properties::channels::dyn_handle::IChannelHandle@DynChannelHandle::get_mut::make_dyn
//@into
//@spec
    ensures
        crate::baseline::only_channels_differ(*old($A1), *final($A1)),
        forall|t: TpPropertyType, i: Index| final($A1).iss_c(t, i) == old($A1).iss_c(t, i),
        match ret {
            Ok(r) => exists|p: &'a mut Channel<T>| #[trigger] <DynChannelMut<'a> as VFrom<&'a mut Channel<T>>>::conv(p, r) && old($A1).cell_c(T::PROPERTY_TYPE, $A0.inner) == Some(GVal::C(T::cinj(*p)))
                && wrote_c(*old($A1), *final($A1), T::PROPERTY_TYPE, $A0.inner, T::cinj(*final(p))),
            Err(_) => old($A1).cell_c(T::PROPERTY_TYPE, $A0.inner) is None && forall|t: TpPropertyType, i: Index| #[trigger] final($A1).cell_c(t, i) == old($A1).cell_c(t, i),
        }
//@end
impl IChannelHandle for DynChannelHandle {
    type OutputRef<'a> = DynChannelRef<'a>;
    type OutputMut<'a> = DynChannelMut<'a>;
    open spec fn got<'a>(&self, b: &'a Baseline, r: Result<Self::OutputRef<'a>>) -> bool {
        match r {
            Ok(r) => b.cell_c(self.ptype(), self.at()) matches Some(GVal::C(v)) && cref(r, v),
            Err(_) => b.cell_c(self.ptype(), self.at()) is None,
        }
    }
    //@traitfn tp_client::contract::properties::channels::dyn_handle::IChannelHandle@DynChannelHandle::get
    //@entry
        proof { types(); }
    //@end
    #[verifier::prophetic]
    open spec fn got_mut<'a>(&self, a: Baseline, b: Baseline, r: Result<Self::OutputMut<'a>>) -> bool {
            &&& crate::baseline::only_channels_differ(a, b)
            &&& forall|t: TpPropertyType, i: Index| b.iss_c(t, i) == a.iss_c(t, i)
            &&& match r {
                Ok(r) => a.cell_c(self.ptype(), self.at()) matches Some(GVal::C(v)) && exists|w: DynChannel| #[trigger] cmut(r, v, w) && wrote_c(a, b, self.ptype(), self.at(), w),
                Err(_) => a.cell_c(self.ptype(), self.at()) is None && forall|t: TpPropertyType, i: Index| #[trigger] b.cell_c(t, i) == a.cell_c(t, i),
            }
    }
    //@traitfn tp_client::contract::properties::channels::dyn_handle::IChannelHandle@DynChannelHandle::get_mut
    //@inner make_dyn
    //@entry
        proof { types(); }
    //@end
    //@traitfn tp_client::contract::properties::channels::dyn_handle::IChannelHandle@DynChannelHandle::prop_type
    //@spec
        ensures ret == self.ptype()
    //@end
}
/// the one cell that differs holds `w`
pub open spec fn wrote_c(a: Baseline, b: Baseline, pt: TpPropertyType, at: Index, w: DynChannel) -> bool {
    forall|t: TpPropertyType, i: Index| #[trigger] b.cell_c(t, i) == if t == pt && i == at { Some(GVal::C(w)) } else { a.cell_c(t, i) }
}
} // handles

// ======================================================================================
// The properties, as lemmas over the contracts alone
// ======================================================================================
pub mod lemmas {
use super::*;
//@foreach
/// D02: into the dynamic value and back gives the value; into any other type fails
pub fn round_$V(v: $T) -> (r: $T) ensures r == v
{
    let d = DynTpProperty::from(v);
    let p = match DynTpPrimitive::try_from(d) { Ok(p) => p, Err(_) => v_unreachable() };
    match <$T>::try_from(p) { Ok(x) => x, Err(_) => v_unreachable() }
}
pub fn round_vec_$V(v: Vec<$T>) -> (r: Vec<$T>) ensures r == v
{
    let d = DynTpProperty::from(v);
    let p = match DynTpVec::try_from(d) { Ok(p) => p, Err(_) => v_unreachable() };
    match <Vec<$T>>::try_from(p) { Ok(x) => x, Err(_) => v_unreachable() }
}
/// D01: the dynamic value made of a value of a type reports that type
pub fn tag_$V(v: $T, w: Vec<$T>)
{
    let d = DynTpProperty::from(v);
    let t = d.prop_type();
    assert(t == TpPropertyType::Primitive(TpPrimitiveType::$V));
    let d = DynTpProperty::from(w);
    let t = d.prop_type();
    assert(t == TpPropertyType::Vec(TpPrimitiveType::$V));
}
/// D03: equality of dynamic values is equality of type and contents, whichever side is dynamic
pub proof fn mixed_eq_$V(d: DynTpProperty, v: $T, w: Vec<$T>)
    ensures
        <$T as PEq<DynTpProperty>>::eqv(&v, &d) == <DynTpProperty as PEq<$T>>::eqv(&d, &v),
        <Vec<$T> as PEq<DynTpProperty>>::eqv(&w, &d) == <DynTpProperty as PEq<Vec<$T>>>::eqv(&d, &w),
        <DynTpProperty as PEq<$T>>::eqv(&d, &v) == <DynTpProperty as PEq<DynTpProperty>>::eqv(&d, &DynTpProperty::Primitive(DynTpPrimitive::$V(v))),
        <DynTpProperty as PEq<Vec<$T>>>::eqv(&d, &w) == <DynTpProperty as PEq<DynTpProperty>>::eqv(&d, &DynTpProperty::Vec(DynTpVec::$V(w))),
{}
//@endfor
/// D03: equality is symmetric, given that it is on the base types
pub proof fn sym(a: DynTpProperty, b: DynTpProperty)
    ensures <DynTpProperty as PEq<DynTpProperty>>::eqv(&a, &b) == <DynTpProperty as PEq<DynTpProperty>>::eqv(&b, &a)
{
    //@foreach
    broadcast use axiom_sym_$V;
    assert forall|x: Seq<$T>, y: Seq<$T>| #[trigger] seq_eqv(x, y) == seq_eqv(y, x) by {
        if seq_eqv(x, y) { assert forall|i: int| 0 <= i < y.len() implies (#[trigger] y[i]).eqv(&x[i]) by { assert(x[i].eqv(&y[i])); } }
        if seq_eqv(y, x) { assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).eqv(&y[i]) by { assert(y[i].eqv(&x[i])); } }
    }
    //@endfor
}
/// D03: a borrowed dynamic value equals another exactly when the values do
pub proof fn refs_eq(a: DynTpProperty, b: DynTpProperty, ra: DynTpPropertyRef<'_>, rb: DynTpPropertyRef<'_>)
    requires ra.of(a), rb.of(b)
    ensures <DynTpPropertyRef<'_> as PEq<DynTpPropertyRef<'_>>>::eqv(&ra, &rb) == <DynTpProperty as PEq<DynTpProperty>>::eqv(&a, &b)
{}
} // lemmas

pub mod time {
use super::*;
//@struct tp_client::time::Ticks
//@struct tp_client::time::RealmTime
impl Copy for Ticks {}
impl Clone for Ticks {
    //@traitfn tp_client::time::Clone@Ticks::clone
    //@spec
        ensures ret == *self
    //@end
}
impl Copy for RealmTime {}
impl Clone for RealmTime {
    //@traitfn tp_client::time::Clone@RealmTime::clone
    //@spec
        ensures ret == *self
    //@end
}
impl Ticks {
    /// the sum, at the nearest end of the range when it lies beyond
    pub open spec fn plus(self, o: Ticks) -> Ticks {
        let n = self.0 + o.0;
        Ticks(if n > i32::MAX { i32::MAX } else if n < i32::MIN { i32::MIN } else { n as i32 })
    }
    pub open spec fn minus(self, o: Ticks) -> Ticks {
        let n = self.0 - o.0;
        Ticks(if n > i32::MAX { i32::MAX } else if n < i32::MIN { i32::MIN } else { n as i32 })
    }
    //@fn tp_client::time::Ticks::new
    //@spec
        ensures ret == Ticks($A0)
    //@end
    //@fn tp_client::time::Ticks::as_millis
    //@spec
        ensures ret == self.0
    //@end
    //@fn tp_client::time::Ticks::as_millis_i64
    //@spec
        ensures ret == self.0
    //@end
}
pub trait Add: Sized { type Output; spec fn sum(a: Self, b: Self, r: Self::Output) -> bool; fn add(self, other: Self) -> (ret: Self::Output) ensures Self::sum(self, other, ret); }
pub trait Sub: Sized { type Output; spec fn dif(a: Self, b: Self, r: Self::Output) -> bool; fn sub(self, other: Self) -> (ret: Self::Output) ensures Self::dif(self, other, ret); }
impl Add for Ticks {
    type Output = Self;
    open spec fn sum(a: Self, b: Self, r: Self) -> bool { r == a.plus(b) }
    // proved by the Kani back end (T01)
    //@assumed tp_client::time::Add@Ticks::add
    //@end
}
impl Sub for Ticks {
    type Output = Self;
    open spec fn dif(a: Self, b: Self, r: Self) -> bool { r == a.minus(b) }
    // proved by the Kani back end (T01)
    //@assumed tp_client::time::Sub@Ticks::sub
    //@end
}
// `a + b`, `a - b` are those
impl vstd::std_specs::ops::AddSpecImpl for Ticks {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Ticks) -> bool { true }
    open spec fn add_spec(self, o: Ticks) -> Ticks { self.plus(o) }
}
impl core::ops::Add for Ticks {
    type Output = Ticks;
    fn add(self, o: Ticks) -> Ticks { <Ticks as Add>::add(self, o) }
}
impl vstd::std_specs::ops::SubSpecImpl for Ticks {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Ticks) -> bool { true }
    open spec fn sub_spec(self, o: Ticks) -> Ticks { self.minus(o) }
}
impl core::ops::Sub for Ticks {
    type Output = Ticks;
    fn sub(self, o: Ticks) -> Ticks { <Ticks as Sub>::sub(self, o) }
}
impl AddAssign<Ticks> for Ticks {
    open spec fn added(a: &Self, r: Ticks, b: &Self) -> bool { *b == a.plus(r) }
    //@traitfn tp_client::time::AddAssign@Ticks::add_assign
    //@end
}
impl RealmTime {
    //@fn tp_client::time::RealmTime::ticks
    //@spec
        ensures ret == self.0
    //@end
    //@fn tp_client::time::RealmTime::ticks_mut
    //@spec
        ensures *ret == old(self).0, final(self).0 == *final(ret)
    //@end
}
impl crate::stub::Default for Ticks {
    open spec fn is_default(&self) -> bool { self.0 == 0 }
    //@traitfn tp_client::time::Default@Ticks::default
    //@end
}
impl crate::stub::Default for RealmTime {
    open spec fn is_default(&self) -> bool { self.0.0 == 0 }
    //@traitfn tp_client::time::Default@RealmTime::default
    //@end
}
} // time
pub mod realm {
use super::*;
use crate::baseline::{Baseline, BaselineKind};
use crate::stub::Default;
use crate::time::{RealmTime, Ticks};
#[verifier::external_body]
pub struct RealmID { _p: () }
//@struct tp_client::realm::Realm
impl Realm {
    pub open spec fn base(&self, k: BaselineKind) -> Baseline {
        match k { BaselineKind::Main => self.baseline_main, BaselineKind::Fork => self.baseline_fork }
    }
    //@fn tp_client::realm::Realm::new
    //@spec
        ensures
            ret.realm_id == $A0,
            ret.time.0 == Ticks(0),
            forall|k: BaselineKind| (#[trigger] ret.base(k)).k() == k && ret.base(k).fresh()
    //@end
    //@fn tp_client::realm::Realm::id
    //@spec
        ensures *ret == self.realm_id
    //@end
    //@fn tp_client::realm::Realm::time
    //@spec
        ensures ret == self.time
    //@end
    //@fn tp_client::realm::Realm::time_mut
    //@spec
        ensures *ret == old(self).time, final(self).time == *final(ret), final(self).realm_id == old(self).realm_id,
            forall|k: BaselineKind| #[trigger] final(self).base(k) == old(self).base(k)
    //@end
    //@fn tp_client::realm::Realm::baseline
    //@spec
        ensures *ret == self.base($A0)
    //@end
    //@fn tp_client::realm::Realm::baseline_mut
    //@spec
        ensures
            *ret == old(self).base($A0), *final(ret) == final(self).base($A0),
            forall|k: BaselineKind| k != $A0 ==> #[trigger] final(self).base(k) == old(self).base(k),
            final(self).time == old(self).time, final(self).realm_id == old(self).realm_id
    //@end
}
} // realm
pub mod action {
use super::*;
//@enum tp_client::action::property::StateAction
//@enum tp_client::action::property::ChannelAction
//@enum tp_client::action::property::PropertyAction
//@enum tp_client::action::Action
//@enum tp_client::action::ActionKind
//@struct tp_client::action::Collaction
pub trait IAction: Sized {
    spec fn k(&self) -> ActionKind;
    fn kind(&self) -> (ret: ActionKind) ensures ret == self.k();
}
impl IAction for StateAction {
    open spec fn k(&self) -> ActionKind { if self is Write { ActionKind::StateWrite } else { ActionKind::StateAssert } }
    //@traitfn tp_client::action::property::IAction@StateAction::kind
    //@end
}
impl IAction for ChannelAction {
    open spec fn k(&self) -> ActionKind { if self is Write { ActionKind::ChannelWrite } else { ActionKind::ChannelAssert } }
    //@traitfn tp_client::action::property::IAction@ChannelAction::kind
    //@end
}
impl IAction for PropertyAction {
    open spec fn k(&self) -> ActionKind { match self { PropertyAction::State(a) => a.k(), PropertyAction::Channel(a) => a.k() } }
    //@traitfn tp_client::action::IAction@PropertyAction::kind
    //@end
}
impl IAction for Action {
    open spec fn k(&self) -> ActionKind { match self { Action::Property(a) => a.k() } }
    //@traitfn tp_client::action::IAction@Action::kind
    //@end
}
impl Collaction {
    //@fn tp_client::action::Collaction::actions
    //@spec
        ensures ret@ == self.actions@
    //@end
    //@fn tp_client::action::Collaction::actions_mut
    //@spec
        ensures (*ret)@ == old(self).actions@, (*final(ret))@ == final(self).actions@
    //@end
}
} // action
pub mod crossbeam_channel {
use super::*;
#[verifier::external_body]
pub struct TryRecvError { _p: () }
#[verifier::external_body]
pub struct RecvTimeoutError { _p: () }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { _p: core::marker::PhantomData<T> }
/// a queue
pub ghost struct Chan { pub no: int, pub cap: Option<usize> }
impl<T> Sender<T> { pub uninterp spec fn chan(&self) -> Chan; }
impl<T> Receiver<T> {
    pub uninterp spec fn chan(&self) -> Chan;
    /// the message is one that was at the head of the queue, and has been taken off it
    pub uninterp spec fn delivered(&self, t: T) -> bool;
    #[verifier::external_body]
    pub fn try_recv(&self) -> (r: core::result::Result<T, TryRecvError>) ensures r matches Ok(t) ==> self.delivered(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn recv_timeout(&self, timeout: core::time::Duration) -> (r: core::result::Result<T, RecvTimeoutError>) ensures r matches Ok(t) ==> self.delivered(t) { unimplemented!() }
}
#[verifier::external_body]
pub fn bounded<T>(cap: usize) -> (r: (Sender<T>, Receiver<T>))
    ensures r.0.chan() == r.1.chan(), r.0.chan().cap == Some(cap)
{ unimplemented!() }
#[verifier::external_body]
pub fn unbounded<T>() -> (r: (Sender<T>, Receiver<T>))
    ensures r.0.chan() == r.1.chan(), r.0.chan().cap == None::<usize>
{ unimplemented!() }
} // crossbeam_channel
pub mod engine {
use super::*;
use crate::stub::{IntoIterator, Iterator};
use crate::action::*;
use crate::baseline::{Baseline, BaselineKind};
use crate::realm::Realm;
use crate::time::Ticks;
use crate::typemap::GVal;
use crate::crossbeam_channel::{Receiver, Sender, TryRecvError, RecvTimeoutError};
use crate::eyre::{Result, WrapErr};
pub type ActionResult = Result<()>;
pub type CollactionResult = core::result::Result<Collaction, Collaction>;
pub type TryApplyResult = core::result::Result<CollactionResult, TryRecvError>;
pub type ApplyResult = core::result::Result<CollactionResult, RecvTimeoutError>;
pub type ActionSender = Sender<Collaction>;

/// the verdict on an action: an assertion holds exactly when the fork's value of that state, of
/// the type the handle has, equals the asserted one; writing needs the state to be there;
/// an action on a channel is accepted
pub open spec fn holds(r: Realm, a: Action) -> bool {
    match a {
        Action::Property(PropertyAction::State(StateAction::Assert { handle, data })) =>
            r.base(BaselineKind::Fork).cell_s(handle.ptype(), handle.at()) matches Some(GVal::S(v)) && <DynTpProperty as PEq<DynTpProperty>>::eqv(&v, &data),
        Action::Property(PropertyAction::State(StateAction::Write { handle, data })) =>
            r.base(BaselineKind::Fork).cell_s(handle.ptype(), handle.at()) is Some,
        _ => true,
    }
}
/// the states of the fork read the same, and all else is the same
pub open spec fn untouched(a: Realm, b: Realm) -> bool {
    &&& a.realm_id == b.realm_id && a.time == b.time && a.base(BaselineKind::Main) == b.base(BaselineKind::Main)
    &&& crate::baseline::reads_as(a.base(BaselineKind::Fork), b.base(BaselineKind::Fork))
}
pub open spec fn can_reverse(r: Realm, a: Action) -> bool { a.k() is StateWrite ==> holds(r, a) }
/// approved exactly when every action holds, and handed back as it was
pub open spec fn decided(r: Realm, c: Collaction, ret: CollactionResult) -> bool {
    match ret {
        Ok(d) => d.actions@ == c.actions@ && forall|i: int| 0 <= i < c.actions@.len() ==> holds(r, #[trigger] c.actions@[i]),
        Err(d) => d.actions@ == c.actions@ && !forall|i: int| 0 <= i < c.actions@.len() ==> holds(r, #[trigger] c.actions@[i]),
    }
}
/// each refers to what the other refers to, and will hold the same
#[verifier::prophetic]
pub open spec fn same_refs<'a>(r: Seq<&'a mut Action>, all: Seq<&'a mut Action>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == *all[i] && *final(r[i]) == *final(all[i])
}
pub open spec fn suffix<T>(r: Seq<T>, all: Seq<T>) -> bool {
    r.len() <= all.len() && forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == all[all.len() - r.len() + j]
}
//@struct tp_client::engine::Engine
impl Engine {
    //@fn tp_client::engine::Engine::new
    //@spec
        ensures ret.0.realm == $A0, ret.0.receiver.chan() == ret.1.chan(), ret.1.chan().cap == $A1
    //@end
    //@fn tp_client::engine::Engine::tick
    //@ops
    //@spec
        ensures
            final(self).realm.time.0 == old(self).realm.time.0.plus($A0),
            final(self).receiver == old(self).receiver, final(self).realm.realm_id == old(self).realm.realm_id,
            forall|k: BaselineKind| #[trigger] final(self).realm.base(k) == old(self).realm.base(k)
    //@end
    //@fn tp_client::engine::Engine::realm
    //@spec
        ensures *ret == self.realm
    //@end
    //@fn tp_client::engine::Engine::realm_mut
    //@spec
        ensures *ret == old(self).realm, final(self).realm == *final(ret), final(self).receiver == old(self).receiver
    //@end
    //@fn tp_client::engine::Engine::try_apply
    //@spec
        ensures
            untouched(old(self).realm, final(self).realm), final(self).receiver == old(self).receiver,
            ret matches Ok(r) ==> exists|c: Collaction| #[trigger] old(self).receiver.delivered(c) && decided(old(self).realm, c, r)
    //@end
    //@fn tp_client::engine::Engine::apply_timeout
    //@spec
        ensures
            untouched(old(self).realm, final(self).realm), final(self).receiver == old(self).receiver,
            ret matches Ok(r) ==> exists|c: Collaction| #[trigger] old(self).receiver.delivered(c) && decided(old(self).realm, c, r)
    //@end
    //@fn tp_client::engine::Engine::apply_action
    //@eqcalls
    //@panics old($A0) matches Action::Property(PropertyAction::State(StateAction::Write { .. })) && holds(old(self).realm, *old($A0))
    //@spec
        ensures
            untouched(old(self).realm, final(self).realm), final(self).receiver == old(self).receiver,
            *final($A0) == *old($A0),
            ret is Ok == holds(old(self).realm, *old($A0)),
    //@end
    //@fn tp_client::engine::Engine::reverse_action
    //@spec
        requires can_reverse(old(self).realm, *old($A0))
        ensures
            untouched(old(self).realm, final(self).realm), final(self).receiver == old(self).receiver,
            *final($A0) == *old($A0),
    //@end
    //@fn tp_client::engine::Engine::reverse_actions
    //@spec
        requires forall|i: int| 0 <= i < $A0.rem().len() ==> can_reverse(old(self).realm, *(#[trigger] $A0.rem()[i]))
        ensures
            untouched(old(self).realm, final(self).realm), final(self).receiver == old(self).receiver,
            forall|i: int| 0 <= i < $A0.rem().len() ==> *final(#[trigger] $A0.rem()[i]) == *$A0.rem()[i]
    //@ready 0
        let ghost all = __it0.rem();
    //@loop 0
        invariant
            suffix(__it0.rem(), all), untouched(old(self).realm, self.realm), self.receiver == old(self).receiver,
            forall|i: int| 0 <= i < all.len() ==> can_reverse(old(self).realm, *(#[trigger] all[i])),
            forall|i: int| 0 <= i < all.len() - __it0.rem().len() ==> *final(#[trigger] all[i]) == *all[i],
        decreases __it0.rem().len()
    //@top 0
        let ghost n = all.len() - __it0.rem().len();
    //@item 0
        assert(__item == all[n]);
    //@end
    //@fn tp_client::engine::Engine::apply_collaction
    //@bind $AP Vec::new()
    //@spec
        ensures
            untouched(old(self).realm, final(self).realm), final(self).receiver == old(self).receiver,
            decided(old(self).realm, $A0, ret)
    //@entry
        broadcast use axiom_iter_mut_resolved;
        let ghost init = $A0.actions@;
    //@ready 0
        let ghost all = __it0.rem();
    //@loop 0
        invariant
            suffix(__it0.rem(), all), all.len() == init.len(),
            untouched(old(self).realm, self.realm), self.receiver == old(self).receiver,
            forall|i: int| 0 <= i < all.len() ==> *(#[trigger] all[i]) == init[i],
            $AP@.len() == all.len() - __it0.rem().len(),
            same_refs($AP@, all),
            forall|i: int| 0 <= i < all.len() - __it0.rem().len() ==> holds(old(self).realm, #[trigger] init[i]),
        decreases __it0.rem().len()
    //@top 0
        let ghost n = all.len() - __it0.rem().len();
    //@item 0
        assert(__item == all[n]);
    //@return 0
        proof {
            assert forall|i: int| 0 <= i < n implies *final(#[trigger] all[i]) == *all[i] by {
                assert($AP@.reverse()[n - 1 - i] == $AP@[i]);
            }
            assert forall|i: int| n < i < all.len() implies *final(#[trigger] all[i]) == *all[i] by {
                assert(__it0.rem()[i - n - 1] == all[i]);
                assert(has_resolved(__it0.left()[i - n - 1]));
            }
            assert(*final(all[n]) == *all[n]);
            assert(!holds(old(self).realm, init[n]));
            assert($A0.actions@.len() == init.len());
            assert forall|i: int| 0 <= i < all.len() implies #[trigger] $A0.actions@[i] == *final(all[i]) by { let z = all[i]; }
            assert($A0.actions@ =~= init);
        }
    //@tail
        proof {
            assert forall|i: int| 0 <= i < all.len() implies *final(#[trigger] all[i]) == *all[i] by {
                assert(*final($AP@[i]) == *final(all[i]));
                assert(has_resolved($AP@[i]));
            }
            assert($A0.actions@.len() == init.len());
            assert forall|i: int| 0 <= i < all.len() implies #[trigger] $A0.actions@[i] == *final(all[i]) by { let z = all[i]; }
            assert($A0.actions@ =~= init);
        }
    //@end
}
} // engine

} // verus!
fn main() {}
